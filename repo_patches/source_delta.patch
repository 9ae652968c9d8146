From 3be7c94142ccef6f56d19659e52c99c5f4d0e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 001/172] fix: close the last bin of OneDSlicer, as documented,
 so the largest value is not dropped

---
 rubin_sim/maf/slicers/one_d_slicer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/one_d_slicer.py b/rubin_sim/maf/slicers/one_d_slicer.py
index 55d091d..e995398 100644
--- a/rubin_sim/maf/slicers/one_d_slicer.py
+++ b/rubin_sim/maf/slicers/one_d_slicer.py
@@ -153,9 +153,10 @@ class OneDSlicer(BaseSlicer):
         data_sorted = sim_data[self.slice_col_name][indxs]
 
         # Setting up slices such that left_edge <= data < right_edge
-        # in each slice.
+        # in each slice, except for the last slice which is closed.
         left = np.searchsorted(data_sorted, self.bins[0:-1], "left")
         right = np.searchsorted(data_sorted, self.bins[1:], "left")
+        right[-1:] = np.searchsorted(data_sorted, self.bins[-1:], "right")
 
         self.sim_idxs = [indxs[le:ri] for le, ri in zip(left, right)]
 
-- 
2.43.0


From 73d5c65c03e242a9a6987530fc9f55d04fcb859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 002/172] fix: use warnings.warn when OneDSlicer is given both
 bins and bin limits

---
 rubin_sim/maf/slicers/one_d_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/one_d_slicer.py b/rubin_sim/maf/slicers/one_d_slicer.py
index e995398..ccfd06d 100644
--- a/rubin_sim/maf/slicers/one_d_slicer.py
+++ b/rubin_sim/maf/slicers/one_d_slicer.py
@@ -66,7 +66,7 @@ class OneDSlicer(BaseSlicer):
         # Forget binmin/max/stepsize if bins was set
         if self.bins is not None:
             if bin_min is not None or bin_max is not None or bin_size is not None:
-                warnings.warning(
+                warnings.warn(
                     f"Both bins and one of the bin_min/bin_max/bin_size was specified. "
                     f"Using bins ({self.bins} values only."
                 )
-- 
2.43.0


From 5de9359e98e0631f4323d5de5fc441d643187e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:06 +0000
Subject: [PATCH 003/172] fix: TimeIntervalSlicer put each visit in the
 interval after the one containing it

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index e5cca06..fcc38da 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -64,7 +64,7 @@ class TimeIntervalSlicer(BaseSlicer):
     def setup_slicer(self, sim_data, maps=None):
         visit_mjds = sim_data[self.mjd_column_name]
         start_mjd = np.floor(np.min(visit_mjds)).astype(int)
-        end_mjd = np.ceil(np.max(visit_mjds)).astype(int)
+        end_mjd = np.floor(np.max(visit_mjds)).astype(int) + 1
         interval_days = self.interval_seconds / (24 * 60 * 60.0)
 
         mjd_bin_edges = np.arange(start_mjd, end_mjd + interval_days, interval_days)
@@ -73,7 +73,7 @@ class TimeIntervalSlicer(BaseSlicer):
             pd.DataFrame(
                 {
                     "visit_idx": np.arange(len(visit_mjds)),
-                    "sid": np.digitize(visit_mjds, mjd_bin_edges),
+                    "sid": np.digitize(visit_mjds, mjd_bin_edges) - 1,
                 }
             )
             .groupby("sid")
@@ -93,11 +93,6 @@ class TimeIntervalSlicer(BaseSlicer):
         def _slice_sim_data(islice):  # pylint: disable=invalid-name
             idxs = self.sim_idxs[islice]
 
-            try:
-                _ = idxs[0]
-            except (TypeError, IndexError):
-                idxs = [idxs]
-
             slice_points = {
                 "sid": islice,
                 "mjd": self.slice_points["mjd"][islice],
-- 
2.43.0


From d6bf0a91bb869b2021dfde7af4e405a1d041437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:33 +0000
Subject: [PATCH 004/172] fix: VisitIntervalSlicer slice points describe the
 visit in the slice when visits are not in time order

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index fcc38da..d1792cc 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -264,11 +264,11 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
             idxs = self.sim_idxs[islice]
             slice_points = {
                 "sid": [idxs],
-                "mjd": self.slice_points["mjd"][islice],
-                "duration": self.slice_points["duration"][islice],
+                "mjd": self.slice_points["mjd"][idxs],
+                "duration": self.slice_points["duration"][idxs],
             }
             for column_name in self.extra_column_names:
-                slice_points[column_name] = self.slice_points[column_name]
+                slice_points[column_name] = self.slice_points[column_name][idxs]
 
             return {"idxs": idxs, "slice_point": slice_points}
 
-- 
2.43.0


From 9a057d113bb4a4162e90605b3c77ae4c91b60f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:33 +0000
Subject: [PATCH 005/172] fix: do not group a metric bundle with bundles its
 stackers conflict with

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index bdb893b..b088e03 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -200,10 +200,12 @@ class MetricBundleGroup:
                             # stop and go on to the
                             # next subset list.
                             break
-                    # Otherwise, we reached the end of the subset
+                if compatible:
+                    # We reached the end of the subset
                     # and they were all compatible.
                     found_compatible = True
                     compatible_list.append(k)
+                    break
             if not found_compatible:
                 # Didn't find a pre-existing compatible set; make a new one.
                 compatible_lists.append(
-- 
2.43.0


From 42f547088cd80be27a0c23e248e3bca5b3ed9db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:49 +0000
Subject: [PATCH 006/172] fix: MetricBundle accepts a single map, as documented

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 22a0dc0..b2b00e2 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -155,7 +155,7 @@ class MetricBundle:
         # Set the 'maps' to apply to the slicer, if applicable.
         if maps_list is not None:
             if isinstance(maps_list, maps.BaseMap):
-                self.known_cols = [
+                self.maps_list = [
                     maps_list,
                 ]
             else:
-- 
2.43.0


From 6dca3665e37d249b81e0caacfc98cac1fea43c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:49 +0000
Subject: [PATCH 007/172] fix: MetricBundle.output_json passes the run name
 under the argument's name

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index b2b00e2..9cd8b10 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -549,7 +549,7 @@ class MetricBundle:
         io = self.slicer.output_json(
             self.metric_values,
             metric_name=self.metric.name,
-            simDataName=self.run_name,
+            sim_data_name=self.run_name,
             info_label=self.info_label,
             plot_dict=self.plot_dict,
         )
-- 
2.43.0


From 2757f89d882e0c5e0707dbd188c3761519acfe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:49 +0000
Subject: [PATCH 008/172] fix: MetricBundle accepts a single plotter

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 9cd8b10..210bc84 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -368,7 +368,7 @@ class MetricBundle:
             The plotter or plotters to use to generate visuals for this metric.
         """
         if plot_funcs is not None:
-            if plot_funcs is isinstance(plot_funcs, plots.BasePlotter):
+            if isinstance(plot_funcs, plots.BasePlotter):
                 self.plot_funcs = [plot_funcs]
             else:
                 self.plot_funcs = []
-- 
2.43.0


From c13eeea5b2e04862b349a3ae554637b5547ab169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:09 +0000
Subject: [PATCH 009/172] fix: BaseSlicer.output_json of unmasked values on a
 one-dimensional slicer

---
 rubin_sim/maf/slicers/base_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/base_slicer.py b/rubin_sim/maf/slicers/base_slicer.py
index 4141858..9f3d2f1 100644
--- a/rubin_sim/maf/slicers/base_slicer.py
+++ b/rubin_sim/maf/slicers/base_slicer.py
@@ -369,7 +369,7 @@ class BaseSlicer(metaclass=SlicerRegistry):
                     bin_left = self.slice_points["bins"][i]
                     value = metric_values[i]
                     metric.append([bin_left, value])
-                metric.append(self.slice_points["bins"][i + 1][0])
+                metric.append([self.slice_points["bins"][i + 1], 0])
             elif self.slicer_name == "UniSlicer":
                 metric.append([metric_values[0]])
         # Write out JSON output.
-- 
2.43.0


From 36f17d6d720ba4d551033ab35b440787931cdffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:50 +0000
Subject: [PATCH 010/172] fix: BaseSlicer.output_json of a masked UniSlicer
 value

---
 rubin_sim/maf/slicers/base_slicer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/base_slicer.py b/rubin_sim/maf/slicers/base_slicer.py
index 9f3d2f1..b18a16f 100644
--- a/rubin_sim/maf/slicers/base_slicer.py
+++ b/rubin_sim/maf/slicers/base_slicer.py
@@ -356,7 +356,8 @@ class BaseSlicer(metaclass=SlicerRegistry):
                         metric.append([bin_left, 0])
                 metric.append([self.slice_points["bins"][i + 1], 0])
             elif self.slicer_name == "UniSlicer":
-                metric.append([metric_values[0]])
+                if not metric_values.mask[0]:
+                    metric.append([metric_values[0]])
         # Else:
         else:
             if "ra" in self.slice_points:
-- 
2.43.0


From f61437ee4d72c996ae3ef196aa291f9c69eb62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:58 +0000
Subject: [PATCH 011/172] fix: ResultsDb saves numpy integer and single
 precision summary values

---
 rubin_sim/maf/db/results_db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index f991889..cdc042e 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -607,7 +607,8 @@ class ResultsDb:
                 warnings.warn("Warning! Cannot save non-conforming summary statistic.")
         # Most summary statistics will be simple floats.
         else:
-            if isinstance(summary_value, float) or isinstance(summary_value, int):
+            if isinstance(summary_value, (float, int, np.floating, np.integer)):
+                summary_value = float(summary_value)
                 summarystat = SummaryStatRow(
                     metric_id=metric_id,
                     summary_name=summary_name,
-- 
2.43.0


From 1b2450e5ab9a2bd58325a87975a855b18ff33194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:58 +0000
Subject: [PATCH 012/172] fix: add_run_to_database looked for the MAF directory
 in the wrong place

maf_dir was rewritten relative to the parent of the tracking database
directory and then used relative to the current directory, so runs could only
be registered when those coincide. TrackingDb.add_run already stores the path
relative to the tracking database.
---
 rubin_sim/maf/db/tracking_db.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index e8a13ee..5563c09 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -282,7 +282,6 @@ def add_run_to_database(
     """
     trackingDb = TrackingDb(database=tracking_db_file)
 
-    maf_dir = os.path.relpath(maf_dir, start=os.path.dirname(trackingDb.tracking_db_dir))
     if not os.path.isdir(maf_dir):
         raise ValueError("There is no directory containing MAF outputs at %s." % (maf_dir))
 
-- 
2.43.0


From 8d960a1d0ad8b98259f18064105517c0c24d2835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:20 +0000
Subject: [PATCH 013/172] fix: replace a run in the tracking database in one
 transaction

---
 rubin_sim/maf/db/tracking_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index 5563c09..130ee71 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -177,7 +177,7 @@ class TrackingDb:
             )
             for run in prevrun:
                 self.session.delete(run)
-            self.session.commit()
+            self.session.flush()
             runinfo = RunRow(
                 maf_run_id=runIds[0],
                 run_group=run_group,
-- 
2.43.0


From 43302ad4a84019ed9a3ed857ade2abddd6f5dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 014/172] fix: query simulations on a night without requiring
 tags

---
 rubin_sim/sim_archive/vseqmetadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 6e4fcb0..5ad62ed 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1474,7 +1474,7 @@ class VisitSequenceArchiveMetadata:
             FROM {}.simulations_extra AS s
             WHERE %s BETWEEN first_day_obs AND last_day_obs
                 AND %s BETWEEN first_day_obs AND last_day_obs
-                AND telescope = %
+                AND telescope = %s
                 AND creation_time >= NOW() - INTERVAL '%s days'
             """
             query_params = (first_day_obs, last_day_obs, telescope, max_simulation_age)
@@ -1561,7 +1561,7 @@ class VisitSequenceArchiveMetadata:
             FROM {}.simulations_extra AS s
             LEFT JOIN aggstats AS ns ON s.visitseq_uuid=ns.visitseq_uuid
             WHERE %s BETWEEN first_day_obs AND last_day_obs
-                AND telescope = %
+                AND telescope = %s
                 AND creation_time >= NOW() - INTERVAL '%s days'
             """
             query_params = (day_obs, day_obs, telescope, max_simulation_age)
-- 
2.43.0


From 12cca4ce36ff152312c85d991a1ed41340d2a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 015/172] fix: insert_nightly_stats leaked a pooled connection
 on every call

---
 rubin_sim/sim_archive/vseqmetadata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 5ad62ed..e670330 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1296,8 +1296,7 @@ class VisitSequenceArchiveMetadata:
 
         # pandas to_sql fails with the native psycopg2, only
         # works with sqlalchemy
-        engine = sqlalchemy.create_engine("postgresql+psycopg2://", creator=self.pg_pool.getconn)
-        with engine.connect() as conn:
+        with self.sa_engine.connect() as conn:
             num_rows_added = stats_df.to_sql(
                 "nightly_stats", conn, schema=self.metadata_db_schema, if_exists="append", index=False
             )
-- 
2.43.0


From b2601cf8174fabf3a707394187cb31bb7e46ff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 016/172] fix: accept an integer parent_last_day_obs, as
 documented

---
 rubin_sim/sim_archive/vseqmetadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index e670330..a5256bd 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -705,7 +705,7 @@ class VisitSequenceArchiveMetadata:
 
         if parent_last_day_obs is not None:
             set_clauses.append(make_set_clause("parent_last_day_obs"))
-            data["parent_last_day_obs"] = parent_last_day_obs
+            data["parent_last_day_obs"] = dayobs_to_date(parent_last_day_obs)
 
         num_columns_to_update = len(set_clauses)
 
-- 
2.43.0


From 342c6b4fcc3380aeac8e73c1fb96082467a0c198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 017/172] fix: refuse a conda environment given without its
 hash, or the reverse

---
 rubin_sim/sim_archive/vseqmetadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index a5256bd..e602d23 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1365,7 +1365,7 @@ class VisitSequenceArchiveMetadata:
             ``None`` (the default) uses the current
             conda environment.
         """
-        if conda_env_hash is None != conda_env_json is None:
+        if (conda_env_hash is None) != (conda_env_json is None):
             raise ValueError("conda_env_hash and conda_env_json must both be set, or neither.")
 
         if conda_env_hash is None:
-- 
2.43.0


From fcc4ea689ceded9659dc7c8776cca191c7ba8c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 018/172] fix: name the file type in the error about a file
 already registered

---
 rubin_sim/sim_archive/vseqmetadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index e602d23..c05c2e9 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1153,7 +1153,7 @@ class VisitSequenceArchiveMetadata:
 
         if already_exists:
             if not update:
-                raise ValueError("A file of type {file_type} is already registered for {visitseq_uuid}")
+                raise ValueError(f"A file of type {file_type} is already registered for {visitseq_uuid}")
 
             query = sql.SQL(
                 "UPDATE {}.files SET file_sha256={}, file_url={} WHERE visitseq_uuid={} AND file_type={}"
-- 
2.43.0


From bc069c22d162b362bbc7136c0f6b092907bd48f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 019/172] fix: export simulated dates under the key that import
 reads

---
 rubin_sim/sim_archive/vseqmetadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index c05c2e9..37e4553 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1713,11 +1713,11 @@ class VisitSequenceArchiveMetadata:
             metadata["creation_time"] = metadata_seq["creation_time"].isoformat()
 
         if metadata_seq.first_day_obs is not None or metadata_seq.last_day_obs is not None:
-            metadata["simulation_dates"] = {}
+            metadata["simulated_dates"] = {}
             if metadata_seq.first_day_obs is not None:
-                metadata["simulation_dates"]["first"] = metadata_seq.first_day_obs
+                metadata["simulated_dates"]["first"] = metadata_seq.first_day_obs
             if metadata_seq.last_day_obs is not None:
-                metadata["simulation_dates"]["last"] = metadata_seq.last_day_obs
+                metadata["simulated_dates"]["last"] = metadata_seq.last_day_obs
 
         if metadata_seq.files is not None:
             metadata["files"] = {}
-- 
2.43.0


From e4c407ba0394f1353ebee2beaaebcff3a2bd74d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:11 +0000
Subject: [PATCH 020/172] fix: import_sim_from_yaml keeps the creation time
 given in the YAML

---
 rubin_sim/sim_archive/vseqmetadata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 37e4553..61bf3d3 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1609,6 +1609,11 @@ class VisitSequenceArchiveMetadata:
             except ValueError:
                 pass
 
+        if sim_archive_metadata.get("creation_time") is not None:
+            record_sim_kwargs["creation_time"] = Time(
+                datetime.fromisoformat(str(sim_archive_metadata["creation_time"]))
+            )
+
         for key in ["scheduler_version", "telescope"]:
             if key in sim_archive_metadata:
                 record_sim_kwargs[key] = sim_archive_metadata[key]
-- 
2.43.0


From e3a3ec82e1ca7fc2441d4986bd47a4765d306d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:07 +0000
Subject: [PATCH 021/172] fix: record simulations whose runner arguments
 include NaN or infinity

---
 rubin_sim/sim_archive/vseqmetadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 61bf3d3..9a40d44 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -683,10 +683,11 @@ class VisitSequenceArchiveMetadata:
             sim_runner_munged_kwargs = {}
             for key in sim_runner_kwargs:
                 try:
-                    # Throws a TypeError if it cannot convert it to json
-                    json_result = json.dumps(sim_runner_kwargs[key])
+                    # Throws a TypeError if it cannot convert it to json,
+                    # or a ValueError if the json would not be valid.
+                    json_result = json.dumps(sim_runner_kwargs[key], allow_nan=False)
                     json_failed = len(json_result) > JSON_DUMP_LIMIT
-                except TypeError:
+                except (TypeError, ValueError):
                     # Cannot convert to json, just store a string
                     # representation instead.
                     json_failed = True
-- 
2.43.0


From 4e8e43009ffa03a6ad4781b3e35cd3e9745c5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:51 +0000
Subject: [PATCH 022/172] fix: record each visit sequence and its details in a
 single transaction

A failure between the INSERT and the following UPDATE left a simulation,
completed or mixed visit sequence in the archive without its details.
---
 rubin_sim/sim_archive/vseqmetadata.py | 141 ++++++--------------------
 1 file changed, 30 insertions(+), 111 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 9a40d44..f2af9de 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -392,6 +392,7 @@ class VisitSequenceArchiveMetadata:
         first_day_obs: date | int | str | None = None,
         last_day_obs: date | int | str | None = None,
         creation_time: Time | None = None,
+        extra_columns: Mapping[str, Any] | None = None,
     ) -> UUID:
         """Record metadata for a new visit sequence.
 
@@ -420,6 +421,9 @@ class VisitSequenceArchiveMetadata:
             to SITCOMTN-032 (UTC-12hrs).
         creation_time : `Time`, optional
             The time the sequence was created, defaults no now.
+        extra_columns : `Mapping`, optional
+            Values for columns specific to ``table``, inserted
+            together with the others.
 
         Returns
         -------
@@ -481,6 +485,12 @@ class VisitSequenceArchiveMetadata:
             data_placeholders.append(sql.Placeholder("creation_time"))
             data["creation_time"] = creation_datetime
 
+        if extra_columns is not None:
+            for column, value in extra_columns.items():
+                columns.append(sql.Identifier(column))
+                data_placeholders.append(sql.Placeholder(column))
+                data[column] = value
+
         query = sql.SQL("INSERT INTO {}.{} ({}) VALUES ({}) RETURNING visitseq_uuid").format(
             sql.Identifier(self.metadata_db_schema),
             sql.Identifier(table),
@@ -644,39 +654,17 @@ class VisitSequenceArchiveMetadata:
         visitseq_uuid : UUID
             The UUID of the new visit sequence.
         """
-        # I would have preferred to use kwargs here, but was not
-        # able to get type checking happy with it.
-        visitseq_uuid = self.record_visitseq_metadata(
-            visits,
-            label,
-            telescope=telescope,
-            table="simulations",
-            url=url,
-            first_day_obs=first_day_obs,
-            last_day_obs=last_day_obs,
-            creation_time=creation_time,
-        )
-
-        def make_set_clause(column: str) -> sql.Composed:
-            set_clause = sql.SQL("{} = {}").format(sql.Identifier(column), sql.Placeholder(column))
-            return set_clause
-
-        set_clauses = []
         data: Dict[str, Any] = {}
         if scheduler_version is not None:
-            set_clauses.append(make_set_clause("scheduler_version"))
             data["scheduler_version"] = scheduler_version
 
         if config_url is not None:
-            set_clauses.append(make_set_clause("config_url"))
             data["config_url"] = config_url
 
         if conda_env_sha256 is not None:
-            set_clauses.append(make_set_clause("conda_env_sha256"))
             data["conda_env_sha256"] = conda_env_sha256
 
         if parent_visitseq_uuid is not None:
-            set_clauses.append(make_set_clause("parent_visitseq_uuid"))
             data["parent_visitseq_uuid"] = str(parent_visitseq_uuid)
 
         if sim_runner_kwargs is not None:
@@ -701,37 +689,24 @@ class VisitSequenceArchiveMetadata:
                     else sim_runner_kwargs[key]
                 )
 
-            set_clauses.append(make_set_clause("sim_runner_kwargs"))
             data["sim_runner_kwargs"] = psycopg2.extras.Json(sim_runner_munged_kwargs)
 
         if parent_last_day_obs is not None:
-            set_clauses.append(make_set_clause("parent_last_day_obs"))
             data["parent_last_day_obs"] = dayobs_to_date(parent_last_day_obs)
 
-        num_columns_to_update = len(set_clauses)
-
-        if num_columns_to_update > 0:
-            query = sql.SQL("UPDATE {}.simulations SET {} WHERE visitseq_uuid={} RETURNING *;").format(
-                sql.Identifier(self.metadata_db_schema),
-                sql.SQL(", ").join(set_clauses),
-                sql.Placeholder("visitseq_uuid"),
-            )
-            data["visitseq_uuid"] = visitseq_uuid
-
-            conn = None
-            try:
-                conn = self.pg_pool.getconn()
-                cursor = conn.cursor()
-                cursor.execute(query, data)
-                result = cursor.fetchall()
-
-                # Be extra cautious, and check that everything looks
-                # reasonable before commiting the update.
-                assert len(result) == 1
-                cursor.execute("COMMIT;")
-            finally:
-                if conn:
-                    self.pg_pool.putconn(conn)
+        # I would have preferred to use kwargs here, but was not
+        # able to get type checking happy with it.
+        visitseq_uuid = self.record_visitseq_metadata(
+            visits,
+            label,
+            telescope=telescope,
+            table="simulations",
+            url=url,
+            first_day_obs=first_day_obs,
+            last_day_obs=last_day_obs,
+            creation_time=creation_time,
+            extra_columns=data,
+        )
 
         return visitseq_uuid
 
@@ -816,33 +791,9 @@ class VisitSequenceArchiveMetadata:
             first_day_obs=first_day_obs,
             last_day_obs=last_day_obs,
             creation_time=creation_time,
+            extra_columns=None if query is None else {"query": query},
         )
 
-        if query is not None:
-            composed_query = sql.SQL(
-                "UPDATE {}.completed SET query={} WHERE visitseq_uuid={} RETURNING *"
-            ).format(
-                sql.Identifier(self.metadata_db_schema),
-                sql.Placeholder("query"),
-                sql.Placeholder("visitseq_uuid"),
-            )
-            data = {"query": query, "visitseq_uuid": visitseq_uuid}
-
-            conn = None
-            try:
-                conn = self.pg_pool.getconn()
-                cursor = conn.cursor()
-                cursor.execute(composed_query, data)
-                result = cursor.fetchall()
-
-                # Be extra cautious, and check that everything looks
-                # reasonable before commiting the update.
-                assert len(result) == 1
-                cursor.execute("COMMIT;")
-            finally:
-                if conn:
-                    self.pg_pool.putconn(conn)
-
         return visitseq_uuid
 
     def record_mixed_metadata(
@@ -902,46 +853,14 @@ class VisitSequenceArchiveMetadata:
             first_day_obs=first_day_obs,
             last_day_obs=last_day_obs,
             creation_time=creation_time,
+            extra_columns={
+                "last_early_day_obs": dayobs_to_date(last_early_day_obs),
+                "first_late_day_obs": dayobs_to_date(first_late_day_obs),
+                "early_parent_uuid": early_parent_uuid,
+                "late_parent_uuid": late_parent_uuid,
+            },
         )
 
-        update_query = sql.SQL("""UPDATE {}.mixedvisitseq
-                   SET last_early_day_obs={},
-                       first_late_day_obs={},
-                       early_parent_uuid={},
-                       late_parent_uuid={}\
-                   WHERE visitseq_uuid={} RETURNING *
-                """).format(
-            sql.Identifier(self.metadata_db_schema),
-            sql.Placeholder("last_early_day_obs"),
-            sql.Placeholder("first_late_day_obs"),
-            sql.Placeholder("early_parent_uuid"),
-            sql.Placeholder("late_parent_uuid"),
-            sql.Placeholder("visitseq_uuid"),
-        )
-
-        data = {
-            "last_early_day_obs": dayobs_to_date(last_early_day_obs),
-            "first_late_day_obs": dayobs_to_date(first_late_day_obs),
-            "early_parent_uuid": early_parent_uuid,
-            "late_parent_uuid": late_parent_uuid,
-            "visitseq_uuid": visitseq_uuid,
-        }
-
-        conn = None
-        try:
-            conn = self.pg_pool.getconn()
-            cursor = conn.cursor()
-            cursor.execute(update_query, data)
-            result = cursor.fetchall()
-
-            # Be extra cautious, and check that everything looks
-            # reasonable before commiting the update.
-            assert len(result) == 1
-            cursor.execute("COMMIT;")
-        finally:
-            if conn:
-                self.pg_pool.putconn(conn)
-
         return visitseq_uuid
 
     def is_tagged(self, visitseq_uuid: UUID, tag: str) -> bool:
-- 
2.43.0


From 86a734428ef1960bb2145efeac3bd5bbd059ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:12 +0000
Subject: [PATCH 023/172] fix: add_file overwrote the archived file before
 refusing a duplicate

---
 rubin_sim/sim_archive/vseqarchive.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rubin_sim/sim_archive/vseqarchive.py b/rubin_sim/sim_archive/vseqarchive.py
index 5b4c33e..e44982d 100644
--- a/rubin_sim/sim_archive/vseqarchive.py
+++ b/rubin_sim/sim_archive/vseqarchive.py
@@ -211,6 +211,16 @@ def add_file(
             location = add_file(vsarch, uuid, new_origin, "visits", archive_base, update)
         return location
 
+    # Refuse before writing: the destination may hold the file
+    # already registered.
+    if file_type != "visits" and not update:
+        try:
+            vsarch.get_file_url(uuid, file_type)
+        except ValueError:
+            pass
+        else:
+            raise ValueError(f"A file of type {file_type} is already registered for {uuid}")
+
     location, file_sha256 = _write_file_to_archive(origin, visitseq_base_rp)
     if file_type == "visits":
         vsarch.set_visitseq_url(uuid, location.geturl())
-- 
2.43.0


From 670c12edba9f9e7305922f84789a19f1155952ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:10 +0000
Subject: [PATCH 024/172] fix: get_sim_uuid finds simulations in the index from
 the bucket

---
 rubin_sim/sim_archive/prenightindex.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prenightindex.py b/rubin_sim/sim_archive/prenightindex.py
index e81f6dc..636c3fd 100644
--- a/rubin_sim/sim_archive/prenightindex.py
+++ b/rubin_sim/sim_archive/prenightindex.py
@@ -291,7 +291,12 @@ def _get_sim_uuid_from_metadata_index(
 
     for telescope in TELESCOPES:
         prenight_index = get_prenight_index(day_obs, telescope, **kwargs)
-        matching_sims = (prenight_index.sim_creation_day_obs == sim_date) & (
+        if len(prenight_index) == 0:
+            continue
+        # Days are date objects in the index from the database, but
+        # strings in the one from the bucket.
+        creation_day_obs = prenight_index.sim_creation_day_obs.map(dayobs_to_date)
+        matching_sims = (creation_day_obs == dayobs_to_date(sim_date)) & (
             prenight_index.daily_id == int(daily_id)
         )
         if np.any(matching_sims):
-- 
2.43.0


From 81628cd7ca42b67c8b2865728bcec87c2b3f7ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:10 +0000
Subject: [PATCH 025/172] fix: get_sim_metadata accepts day_obs as an ISO date
 string, as documented

---
 rubin_sim/sim_archive/prenightindex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rubin_sim/sim_archive/prenightindex.py b/rubin_sim/sim_archive/prenightindex.py
index 636c3fd..3874dd0 100644
--- a/rubin_sim/sim_archive/prenightindex.py
+++ b/rubin_sim/sim_archive/prenightindex.py
@@ -386,6 +386,10 @@ def _get_sim_metadata_from_metadata_index(
         simulations are found with the same UUID (indicating a problem in the
         metadata database).
     """
+    # Accept ISO style string for day_obs
+    if isinstance(day_obs, str):
+        day_obs = day_obs.replace("-", "")
+
     day_obs = int(
         f"{day_obs.year:04d}{day_obs.month:02d}{day_obs.day:02d}" if isinstance(day_obs, date) else day_obs
     )
-- 
2.43.0


From 13180ce10fa2dff936985b15fc5251c3d3664b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:38 +0000
Subject: [PATCH 026/172] fix: read visits of a prenight simulation without a
 visits URL from its opsim file

---
 rubin_sim/sim_archive/future_vsarch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/future_vsarch.py b/rubin_sim/sim_archive/future_vsarch.py
index 7df68fb..413da5e 100644
--- a/rubin_sim/sim_archive/future_vsarch.py
+++ b/rubin_sim/sim_archive/future_vsarch.py
@@ -351,7 +351,7 @@ def _fetch_sim_for_nights(
             if len(this_sim) == 0:
                 raise ValueError("No matching simulations found")
             visitseq_url = this_sim["visitseq_url"]
-            if visitseq_url is not None:
+            if pd.notna(visitseq_url):
                 opsim_rp = ResourcePath(visitseq_url)
             elif "opsim" in this_sim["files"]:
                 opsim_rp = ResourcePath(this_sim["files"]["opsim"])
@@ -362,7 +362,7 @@ def _fetch_sim_for_nights(
             if len(this_sim) == 0:
                 raise ValueError("No matching simulations found")
             visitseq_url = this_sim["visitseq_url"]
-            if visitseq_url is not None:
+            if pd.notna(visitseq_url):
                 opsim_rp = ResourcePath(visitseq_url)
             elif "opsim" in this_sim["files"]:
                 opsim_rp = ResourcePath(this_sim["files"]["opsim"])
-- 
2.43.0


From 7eaa4e80af8f4753fe5127f05499cd6f4265190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:38 +0000
Subject: [PATCH 027/172] fix: fetching visits for nights left the caller's
 stackers and arguments changed

---
 rubin_sim/sim_archive/future_vsarch.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/sim_archive/future_vsarch.py b/rubin_sim/sim_archive/future_vsarch.py
index 413da5e..a62b95c 100644
--- a/rubin_sim/sim_archive/future_vsarch.py
+++ b/rubin_sim/sim_archive/future_vsarch.py
@@ -378,7 +378,8 @@ def _fetch_sim_for_nights(
             stackers = get_sim_data_kwargs["stackers"]
         else:
             stackers = []
-    assert isinstance(stackers, list)
+    # Make a copy, so as not to change the sequence we were given.
+    stackers = list(stackers)
 
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in stackers]
     if not dayobsiso_requested:
@@ -387,9 +388,7 @@ def _fetch_sim_for_nights(
         stackers.append(maf.DayObsISOStacker())
 
     if opsim_rp.getExtension() in (".db", ".sqlite3"):
-        if get_sim_data_kwargs is None:
-            get_sim_data_kwargs = {}
-        assert isinstance(get_sim_data_kwargs, dict)
+        get_sim_data_kwargs = {} if get_sim_data_kwargs is None else dict(get_sim_data_kwargs)
         get_sim_data_kwargs["stackers"] = stackers
         visits_recarray = get_sim_data(opsim_rp, **get_sim_data_kwargs)
         visits = pd.DataFrame(visits_recarray)
-- 
2.43.0


From 6ec1291c8ba18f8f07b5eab935eb620a6407f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:20 +0000
Subject: [PATCH 028/172] fix: a TimeIntervalSlicer set up again kept visits of
 the earlier setup

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index d1792cc..ade2e05 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -69,6 +69,8 @@ class TimeIntervalSlicer(BaseSlicer):
 
         mjd_bin_edges = np.arange(start_mjd, end_mjd + interval_days, interval_days)
 
+        # Forget the visits of any earlier setup.
+        self.sim_idxs.clear()
         self.sim_idxs.update(
             pd.DataFrame(
                 {
@@ -188,6 +190,7 @@ class BlockIntervalSlicer(TimeIntervalSlicer):
 
         self.nslice = len(blocks)
         self.shape = self.nslice
+        self.sim_idxs.clear()
         self.sim_idxs.update(
             visits.reset_index()[["sid", "visit_idx"]].groupby("sid").agg(list).to_dict()["visit_idx"]
         )
-- 
2.43.0


From 433d6a413faa330236bdcbf3364f5aaa59cd2eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:29 +0000
Subject: [PATCH 029/172] fix: read visits of a prenight simulation without a
 visits URL from its opsim file, in fetch_sim_for_nights too

---
 rubin_sim/sim_archive/sim_archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 9b8fc21..4dd2dbd 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -444,7 +444,7 @@ def fetch_sim_for_nights(
             if len(this_sim) == 0:
                 raise ValueError("No matching simulations found")
             visitseq_url = this_sim["visitseq_url"]
-            if visitseq_url is not None:
+            if pd.notna(visitseq_url):
                 opsim_rp = ResourcePath(visitseq_url)
             elif "opsim" in this_sim["files"]:
                 opsim_rp = ResourcePath(this_sim["files"]["opsim"])
@@ -455,7 +455,7 @@ def fetch_sim_for_nights(
             if len(this_sim) == 0:
                 raise ValueError("No matching simulations found")
             visitseq_url = this_sim["visitseq_url"]
-            if visitseq_url is not None:
+            if pd.notna(visitseq_url):
                 opsim_rp = ResourcePath(visitseq_url)
             elif "opsim" in this_sim["files"]:
                 opsim_rp = ResourcePath(this_sim["files"]["opsim"])
-- 
2.43.0


From 3da4336ec5f9a2e82214d56837415b6ea4d9e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:29 +0000
Subject: [PATCH 030/172] fix: fetch_sim_for_nights left the caller's stackers
 and arguments changed

---
 rubin_sim/sim_archive/sim_archive.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 4dd2dbd..7f4d632 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -471,7 +471,8 @@ def fetch_sim_for_nights(
             stackers = get_sim_data_kwargs["stackers"]
         else:
             stackers = []
-    assert isinstance(stackers, list)
+    # Make a copy, so as not to change the sequence we were given.
+    stackers = list(stackers)
 
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in stackers]
     if not dayobsiso_requested:
@@ -480,9 +481,7 @@ def fetch_sim_for_nights(
         stackers.append(maf.DayObsISOStacker())
 
     if opsim_rp.getExtension() in (".db", ".sqlite3"):
-        if get_sim_data_kwargs is None:
-            get_sim_data_kwargs = {}
-        assert isinstance(get_sim_data_kwargs, dict)
+        get_sim_data_kwargs = {} if get_sim_data_kwargs is None else dict(get_sim_data_kwargs)
         get_sim_data_kwargs["stackers"] = stackers
         visits_recarray = get_sim_data(opsim_rp, **get_sim_data_kwargs)
         visits = pd.DataFrame(visits_recarray)
-- 
2.43.0


From 596508cfd9f92607d453306185aa7dfce2001e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:53 +0000
Subject: [PATCH 031/172] fix: calc_m5 solved the noise equation with the wrong
 power of the gain

---
 rubin_sim/phot_utils/signaltonoise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/signaltonoise.py b/rubin_sim/phot_utils/signaltonoise.py
index fcaab27..6497b76 100644
--- a/rubin_sim/phot_utils/signaltonoise.py
+++ b/rubin_sim/phot_utils/signaltonoise.py
@@ -292,7 +292,7 @@ def calc_m5(skysed, total_bandpass, hardware, phot_params, fwhm_eff=0.83):
     v_n = calc_total_non_source_noise_sq(skysed, hardware, phot_params, fwhm_eff)
 
     counts_5sigma = (snr**2) / 2.0 / phot_params.gain + numpy.sqrt(
-        (snr**4) / 4.0 / phot_params.gain + (snr**2) * v_n
+        (snr**4) / 4.0 / phot_params.gain**2 + (snr**2) * v_n
     )
 
     # renormalize flatsource so that it has the required counts to be a
-- 
2.43.0


From 782a650724e3ad65de2132516b4895e151af2c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:53 +0000
Subject: [PATCH 032/172] fix: wavelength grids could run a step past the
 requested maximum

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index ca1523c..a19d3e5 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -789,7 +789,7 @@ class Sed:
                 if (wavelen_min is None) and (wavelen_max is None) and (wavelen_step is None):
                     raise ValueError("Must set either wavelen_match or wavelen_min/max/step.")
                 wavelen_grid = numpy.arange(
-                    wavelen_min, wavelen_max + wavelen_step, wavelen_step, dtype="float"
+                    wavelen_min, wavelen_max + wavelen_step / 2.0, wavelen_step, dtype="float"
                 )
             else:
                 wavelen_grid = numpy.copy(wavelen_match)
@@ -1594,7 +1594,7 @@ class Sed:
         phiarray = numpy.empty(
             (
                 len(bandpasslist),
-                numpy.size(numpy.arange(wavelen_min, wavelen_max + wavelen_step, wavelen_step)),
+                numpy.size(numpy.arange(wavelen_min, wavelen_max + wavelen_step / 2.0, wavelen_step)),
             ),
             dtype="float",
         )
-- 
2.43.0


From 627f0d6915c3799a0b998732a37e73e2fc1ffba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:53 +0000
Subject: [PATCH 033/172] fix: multiply_sed of spectra on different wavelength
 grids

---
 rubin_sim/phot_utils/sed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index a19d3e5..60ef46b 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1146,11 +1146,11 @@ class Sed:
         """
 
         if wavelen_step is None:
-            wavelen_step = self._phys_params.wavelenstep
+            wavelen_step = 0.1
 
         # Check if the wavelength arrays are equal
         # (in which case do not resample)
-        if numpy.all(self.wavelen == other_sed.wavelen):
+        if numpy.array_equal(self.wavelen, other_sed.wavelen):
             flambda = self.flambda * other_sed.flambda
             new_sed = Sed(self.wavelen, flambda=flambda)
         else:
@@ -1430,7 +1430,7 @@ class Sed:
         # Start normalizing wavelen/flambda.
 
         if wavelen_step is None:
-            wavelen_step = self._phys_params.wavelenstep
+            wavelen_step = 0.1
 
         if normflux == "flambda":
             update_self = self._check_use_self(wavelen, flambda)
-- 
2.43.0


From ee01e5fa4cc5446686952265ab0324ae430e5327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:53 +0000
Subject: [PATCH 034/172] fix: multiply_throughputs with a throughput on
 another number of wavelengths

---
 rubin_sim/phot_utils/bandpass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/bandpass.py b/rubin_sim/phot_utils/bandpass.py
index 02abb87..7ca0a85 100644
--- a/rubin_sim/phot_utils/bandpass.py
+++ b/rubin_sim/phot_utils/bandpass.py
@@ -339,7 +339,7 @@ class Bandpass:
         This method does not affect self.
         """
         # Resample wavelen_other/sb_other to match this bandpass.
-        if not np.all(self.wavelen == wavelen_other):
+        if not np.array_equal(self.wavelen, wavelen_other):
             wavelen_other, sb_other = self.resample_bandpass(
                 wavelen=wavelen_other,
                 sb=sb_other,
-- 
2.43.0


From d9b57244f7c62b90481de5b6ec54e2e520788fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:53 +0000
Subject: [PATCH 035/172] fix: read_throughput of a list of files failed after
 reading them

---
 rubin_sim/phot_utils/bandpass.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/phot_utils/bandpass.py b/rubin_sim/phot_utils/bandpass.py
index 7ca0a85..c0d6ab2 100644
--- a/rubin_sim/phot_utils/bandpass.py
+++ b/rubin_sim/phot_utils/bandpass.py
@@ -146,6 +146,7 @@ class Bandpass:
                 "Was given list of files, instead of a single file. Using read_throughputList instead"
             )
             self.read_throughput_list(component_list=filename)
+            return
         # Filename is single file, now try to open file and read data.
         try:
             if filename.endswith(".gz"):
-- 
2.43.0


From edf0baa74dbb7bf6a1cdfdc20227cb98935396c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:54 +0000
Subject: [PATCH 036/172] fix: renormalize_sed in fnu, and given fnu

---
 rubin_sim/phot_utils/sed.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 60ef46b..8e895dc 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1433,7 +1433,7 @@ class Sed:
             wavelen_step = 0.1
 
         if normflux == "flambda":
-            update_self = self._check_use_self(wavelen, flambda)
+            update_self = self._check_use_self(wavelen, fnu if flambda is None else flambda)
             if update_self:
                 wavelen = self.wavelen
                 flambda = self.flambda
@@ -1476,7 +1476,7 @@ class Sed:
             flambda = flambda * konst
             wavelen, fnu = self.flambda_tofnu(wavelen, flambda)
         elif normflux == "fnu":
-            update_self = self._check_use_self(wavelen, fnu)
+            update_self = self._check_use_self(wavelen, flambda if fnu is None else fnu)
             if update_self:
                 wavelen = self.wavelen
                 if self.fnu is None:
@@ -1489,7 +1489,7 @@ class Sed:
                 if fnu is None:
                     if flambda is None:
                         raise Exception("If passing wavelength, must also pass fnu or flambda.")
-                    wavelen, fnu = self.flambda_tofnu(wavelen, fnu)
+                    wavelen, fnu = self.flambda_tofnu(wavelen, flambda)
                 # Make a copy of the input data.
                 else:
                     fnu = numpy.copy(fnu)
@@ -1502,7 +1502,7 @@ class Sed:
                     + "is outside defined wavelength range."
                 )
             if gap == 0:
-                fnu_atpt = numpy.interp(lambdanorm, wavelen, flambda, left=None, right=None)
+                fnu_atpt = numpy.interp(lambdanorm, wavelen, fnu, left=None, right=None)
                 gapval = fnu_atpt
             else:
                 lambdapt = numpy.arange(lambdanorm - gap, lambdanorm + gap, wavelen_step, dtype=float)
@@ -1516,7 +1516,7 @@ class Sed:
                 )
             konst = normvalue / gapval
             fnu = fnu * konst
-            wavelen, flambda = self.fnutoflambda(wavelen, fnu)
+            wavelen, flambda = self.fnu_toflambda(wavelen, fnu)
         if update_self:
             self.wavelen = wavelen
             self.flambda = flambda
-- 
2.43.0


From 10724d164704c0c2f982d5866ed21522d2d26e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:54 +0000
Subject: [PATCH 037/172] fix: write_sed with fnu

---
 rubin_sim/phot_utils/sed.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 8e895dc..90ec083 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1565,7 +1565,6 @@ class Sed:
             print("# Wavelength(nm)  Flambda(ergs/cm^s/s/nm)", file=f)
         for i in range(0, len(wavelen), 1):
             if print_fnu:
-                fnu = self.flambda_tofnu(wavelen=wavelen, flambda=flambda)
                 print(wavelen[i], flambda[i], fnu[i], file=f)
             else:
                 print("%.2f %.7g" % (wavelen[i], flambda[i]), file=f)
-- 
2.43.0


From a4a87c276c1fbf46171641ed96bafc4bd2b5268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:54 +0000
Subject: [PATCH 038/172] fix: a spectrum shared its arrays with the caller

---
 rubin_sim/phot_utils/sed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 90ec083..a415867 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -480,8 +480,8 @@ class Sed:
             elif (isinstance(fnu, numpy.ndarray) is False) or (len(fnu) != len(self.wavelen)):
                 raise ValueError("(No Flambda) - Fnu must be numpy array of same length as Wavelen.")
             # Convert fnu to flambda.
-            self.wavelen, self.flambda = self.fnu_toflambda(wavelen, fnu)
-            self.fnu = fnu
+            self.fnu = numpy.copy(fnu)
+            self.wavelen, self.flambda = self.fnu_toflambda(self.wavelen, self.fnu)
         self.name = name
         return
 
@@ -638,7 +638,7 @@ class Sed:
             fnu = numpy.copy(self.fnu)
         else:
             # Fnu was not set .. grab copy fnu without changing self.
-            wavelen, fnu = self.flambda_tofnu(self.wavelen, self.flambda)
+            wavelen, fnu = self.flambda_tofnu(wavelen, self.flambda)
             # Now wavelen/fnu (new mem) are gridded evenly,
             # but self.wavelen/flambda/fnu remain unchanged.
         return wavelen, fnu
-- 
2.43.0


From 4e8a3b454e7a0a072a6dd22127a995aacff67383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:54 +0000
Subject: [PATCH 039/172] fix: clear_sed reset the zeropoint to another value
 than a new spectrum has

---
 rubin_sim/phot_utils/sed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index a415867..d243ac4 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -652,7 +652,7 @@ class Sed:
         self.wavelen = None
         self.fnu = None
         self.flambda = None
-        self.zp = -8.9
+        self.zp = -2.5 * numpy.log10(3631)
         self.name = None
         return
 
-- 
2.43.0


From b3a4196540f60bcb64c39f589353eeb0752e6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:54 +0000
Subject: [PATCH 040/172] fix: no dust extinction at 5.9 per micron exactly

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index d243ac4..bb9f036 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -981,7 +981,7 @@ class Sed:
             y = x[condition]
             a_x[condition] = 1.752 - 0.316 * y - 0.104 / ((y - 4.67) ** 2 + 0.341)
             b_x[condition] = -3.090 + 1.825 * y + 1.206 / ((y - 4.62) ** 2 + 0.263)
-        condition = (x > 5.9) & (x < 8)
+        condition = (x >= 5.9) & (x < 8)
         if len(a_x[condition]) > 0:
             y = x[condition]
             fa_x = numpy.empty(len(a_x[condition]), dtype=float)
@@ -1043,7 +1043,7 @@ class Sed:
             y = x[condition]
             a_x[condition] = 1.752 - 0.316 * y - 0.104 / ((y - 4.67) ** 2 + 0.341)
             b_x[condition] = -3.090 + 1.825 * y + 1.206 / ((y - 4.62) ** 2 + 0.263)
-        condition = (x > 5.9) & (x < 8)
+        condition = (x >= 5.9) & (x < 8)
         if len(a_x[condition]) > 0:
             y = x[condition]
             fa_x = numpy.empty(len(a_x[condition]), dtype=float)
-- 
2.43.0


From 6e1f50fc60890278f646d6b9a683ce3c53bcab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 041/172] fix: ChebyFits crashed instead of recording objects
 it could not fit (DataFrame.as_matrix is gone)

---
 rubin_sim/moving_objects/cheby_fits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index a056d31..3c5dc30 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -276,7 +276,7 @@ class ChebyFits:
             counter += 1
         if (self.t_span % length) > num_tolerance or (length <= 0):
             # Add this entire segment into the failed list.
-            for obj_id in self.orbits_obj.orbits["obj_id"].as_matrix():
+            for obj_id in self.orbits_obj.orbits["obj_id"].to_numpy():
                 self.failed.append((obj_id, self.t_start, self.t_end))
             raise ValueError(
                 "Could not find a suitable length for the timespan (start %f, span %f), "
@@ -380,7 +380,7 @@ class ChebyFits:
             counter += 1
         if counter > max_iterations or length <= 0:
             # Add this entire segment into the failed list.
-            for obj_id in self.orbits_obj.orbits["obj_id"].as_matrix():
+            for obj_id in self.orbits_obj.orbits["obj_id"].to_numpy():
                 self.failed.append((obj_id, self.t_start, self.t_end))
             error_message = "Could not find good segment length to meet skyTolerance %f" % (
                 self.sky_tolerance
-- 
2.43.0


From 21b086072ecdd0888ec9ae92e3b5d255be263c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 042/172] fix: ChebyFits reported the distance residual as the
 magnitude residual

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index 3c5dc30..faa19b2 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -534,7 +534,7 @@ class ChebyFits:
                 self.resids["t_end"].append(t_segment_end)
                 self.resids["pos"].append(max_pos_resid)
                 self.resids["geo_dist"].append(max_resids["geo_dist"])
-                self.resids["vmag"].append(max_resids["geo_dist"])
+                self.resids["vmag"].append(max_resids["vmag"])
                 self.resids["elongation"].append(max_resids["elongation"])
 
     def _subdivide_segment(self, orbit_obj, ephs):
-- 
2.43.0


From 06ba881f0124b3013091319fe84c4fe06e28d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 043/172] fix: ChebyFits recorded a Series instead of the
 object id for a failed segment

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index faa19b2..b1170a8 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -517,7 +517,7 @@ class ChebyFits:
                     "Fit failed for orbit_obj %s for times between %f and %f"
                     % (obj_id, t_segment_start, t_segment_end)
                 )
-                self.failed.append((orbit_obj.orbits["obj_id"], t_segment_start, t_segment_end))
+                self.failed.append((obj_id, t_segment_start, t_segment_end))
             else:
                 # Consolidate items into the tracked coefficient values.
                 self.coeffs["obj_id"].append(obj_id)
-- 
2.43.0


From f53d45a90bbc3b8f74ccdc9bdb4bba8fa72176d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 044/172] fix: ChebyFits.write could not append

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index b1170a8..8093dff 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -605,7 +605,7 @@ class ChebyFits:
         )
 
         if append:
-            open_mode = "aw"
+            open_mode = "a"
         else:
             open_mode = "w"
         # Write a header to the coefficients file, if writing to a new file:
-- 
2.43.0


From 3c42da6b0076c7e334ce4f8dddc3bb6532e2e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 045/172] fix: ChebyFits left gaps between segments when the
 rounded start fell after its sample

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index 8093dff..2e22ee0 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -480,7 +480,7 @@ class ChebyFits:
                 # which are relevant for this segment
                 # (at the default segment size).
                 t_segment_end = round(t_segment_start + self.length, self.n_decimal)
-                subset = np.where((times >= t_segment_start) & (times < t_segment_end + eps))
+                subset = np.where((times > t_segment_start - eps) & (times < t_segment_end + eps))
                 self.calc_one_segment(orbit_obj, e[subset])
                 t_segment_start = t_segment_end
 
-- 
2.43.0


From a4dcbd54bbed1c8f97d4859bfd19bcc21a90dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 046/172] fix: ChebyFits divided by a segment length rounded to
 zero

---
 rubin_sim/moving_objects/cheby_fits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index 2e22ee0..a1ae6ba 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -267,14 +267,14 @@ class ChebyFits:
         counter = 0
         prev_int_factor = 0
         num_tolerance = 10.0 ** (-1 * (self.n_decimal - 1))
-        while ((self.t_span % length) > num_tolerance) and (length > 0) and (counter < 20):
+        while (length > 0) and ((self.t_span % length) > num_tolerance) and (counter < 20):
             int_factor = int(self.t_span / length) + 1  # round up / ceiling
             if int_factor == prev_int_factor:
                 int_factor = prev_int_factor + 1
             prev_int_factor = int_factor
             length = round(self.t_span / int_factor, self.n_decimal)
             counter += 1
-        if (self.t_span % length) > num_tolerance or (length <= 0):
+        if (length <= 0) or (self.t_span % length) > num_tolerance:
             # Add this entire segment into the failed list.
             for obj_id in self.orbits_obj.orbits["obj_id"].to_numpy():
                 self.failed.append((obj_id, self.t_start, self.t_end))
-- 
2.43.0


From 1ced23f68f018d2d1a82493b723be04cc412611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 047/172] fix: ChebyValues changed the coefficients of the
 ChebyFits it was set from

---
 rubin_sim/moving_objects/cheby_values.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index 6137443..27bf968 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -46,14 +46,12 @@ class ChebyValues:
             ChebyFits object, with attribute 'coeffs' -
             a dictionary of lists of coefficients.
         """
-        self.coeffs = cheby_fits.coeffs
         # Convert list of coefficients into numpy arrays.
-        for k in self.coeffs:
-            self.coeffs[k] = np.array(self.coeffs[k])
+        self.coeffs = {k: np.array(v) for k, v in cheby_fits.coeffs.items()}
         # Check that expected values were received.
         missing_keys = set(self.coeff_keys) - set(self.coeffs)
         if len(missing_keys) > 0:
-            raise ValueError("Expected to find key(s) %s in coefficients." % " ".join(list[missing_keys]))
+            raise ValueError("Expected to find key(s) %s in coefficients." % " ".join(list(missing_keys)))
         self.coeffs["meanRA"] = self.coeffs["ra"].swapaxes(0, 1)[0]
         self.coeffs["meanDec"] = self.coeffs["dec"].swapaxes(0, 1)[0]
 
-- 
2.43.0


From 8e5fa633a1beae289e6e88f0d193632aad2e9afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 048/172] fix: ChebyValues.get_ephemerides mixed up objects
 whose segments differ and rewrote the caller's obj_ids

---
 rubin_sim/moving_objects/cheby_values.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index 27bf968..191a6e7 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -188,11 +188,16 @@ class ChebyValues:
             if isinstance(obj_ids, str) or isinstance(obj_ids, int):
                 obj_ids = np.array([obj_ids])
             obj_match = np.isin(self.coeffs["obj_id"], obj_ids)
-            ephemerides["obj_id"] = obj_ids
+            if set(self.coeffs["obj_id"][obj_match]) != set(obj_ids):
+                raise ValueError(
+                    "Did not find expected match between obj_ids provided and ephemeride obj_ids."
+                )
+            ephemerides["obj_id"] = np.array(obj_ids)
+        rows = {obj_id: i for i, obj_id in enumerate(ephemerides["obj_id"])}
         # Now find ephemeris values.
         ephemerides["time"] = np.zeros((len(ephemerides["obj_id"]), ntimes), float) + times
         for k in self.ephemeris_keys:
-            ephemerides[k] = np.zeros((len(ephemerides["obj_id"]), ntimes), float)
+            ephemerides[k] = np.full((len(ephemerides["obj_id"]), ntimes), np.nan)
         for it, t in enumerate(times):
             # Find subset of segments which contain the appropriate time.
             # Look for simplest subset first.
@@ -216,14 +221,9 @@ class ChebyValues:
                     # Not extrapolating, but outside the
                     # simple match case above.
                     segments = np.where(self.coeffs["t_end"][obj_match] == seg_end)[0]
-            for i, segmentIdx in enumerate(segments):
+            for segmentIdx in segments:
+                i = rows[self.coeffs["obj_id"][obj_match][segmentIdx]]
                 ephemeris = self._eval_segment(segmentIdx, t, obj_match, mask=False)
                 for k in self.ephemeris_keys:
                     ephemerides[k][i][it] = ephemeris[k]
-                ephemerides["obj_id"][i] = self.coeffs["obj_id"][obj_match][segmentIdx]
-        if obj_ids is not None:
-            if set(ephemerides["obj_id"]) != set(obj_ids):
-                raise ValueError(
-                    "Did not find expected match between obj_ids provided and ephemeride obj_ids."
-                )
         return ephemerides
-- 
2.43.0


From 945da896b4e974658fbb72ae4864027f794e04fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 049/172] fix: Orbits with the same ids compared equal whatever
 their elements

---
 rubin_sim/moving_objects/orbits.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index e33f0bf..77f95f9 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -81,10 +81,9 @@ class Orbits:
             if self.orb_format != other_orbits.orb_format:
                 return False
             for col in self.data_cols[self.orb_format]:
-                if not np.all(self.orbits[col].values == other_orbits.orbits[col].values):
+                if not np.array_equal(self.orbits[col].values, other_orbits.orbits[col].values):
                     return False
-                else:
-                    return True
+            return True
         else:
             return False
 
-- 
2.43.0


From 943d38ecdd151d5e82e96f9caf47bb5d84e40476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 050/172] fix: the S3MID and objid(int) headers of orbit files
 were not recognized

---
 rubin_sim/moving_objects/orbits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 77f95f9..4ce61ab 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -428,7 +428,8 @@ class Orbits:
             "!!OID",
             "!!S3MID",
             "OID",
-            "S3MID" "objid(int)",
+            "S3MID",
+            "objid(int)",
             "full_name",
             "#name",
         ]
-- 
2.43.0


From 9df6da2d18495cd99908d41f778e2a983aa269d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 051/172] fix: Orbits.set_orbits changed the caller's DataFrame

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 4ce61ab..6938dd3 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -125,7 +125,7 @@ class Orbits:
         elif isinstance(orbits, pd.DataFrame):
             # This was a pandas dataframe ..
             # but we probably want to drop the index and recount.
-            orbits.reset_index(drop=True, inplace=True)
+            orbits = orbits.reset_index(drop=True)
 
         if "index" in orbits:
             del orbits["index"]
-- 
2.43.0


From d0f772870de548b16e8cdb140197b3b41ca628be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 052/172] fix: negative inclinations in an orbit file were
 accepted

---
 rubin_sim/moving_objects/orbits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 6938dd3..5765750 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -482,8 +482,8 @@ class Orbits:
         if "inc" in orbits.keys():
             if np.min(orbits["inc"]) < 0:
                 negative_incs = np.where(orbits["inc"].values < 0)[0]
-                negative_ids = orbits["obj_id"].values[negative_incs]
-                ValueError("Negative orbital inclinations not supported. Problem obj_ids=%s" % negative_ids)
+                negative_ids = orbits["obj_id"].values[negative_incs] if "obj_id" in orbits else negative_incs
+                raise ValueError("Negative orbital inclinations not supported. Problem obj_ids=%s" % negative_ids)
 
         # Validate and assign orbits to self.
         self.set_orbits(orbits)
-- 
2.43.0


From d3c5bc9f7146d4fdbe751c9588909bd8a5da8446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 053/172] fix: the rectangular field of view broke at RA 0 and
 for pointings in radians

---
 rubin_sim/moving_objects/base_obs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 0e2ae63..8191776 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -395,8 +395,12 @@ class BaseObs:
         return self._sso_in_rectangle_fov(ephems, obs_data, self.x_tol, self.y_tol)
 
     def _sso_in_rectangle_fov(self, ephems, obs_data, x_tol, y_tol):
-        delta_dec = np.abs(ephems["dec"] - obs_data[self.obs_dec])
-        delta_ra = np.abs((ephems["ra"] - obs_data[self.obs_ra]) * np.cos(np.radians(obs_data[self.obs_dec])))
+        obs_ra, obs_dec = obs_data[self.obs_ra], obs_data[self.obs_dec]
+        if not self.obs_degrees:
+            obs_ra, obs_dec = np.degrees(obs_ra), np.degrees(obs_dec)
+        delta_dec = np.abs(ephems["dec"] - obs_dec)
+        delta_ra = (ephems["ra"] - obs_ra + 180.0) % 360.0 - 180.0
+        delta_ra = np.abs(delta_ra * np.cos(np.radians(obs_dec)))
         idx_obs = np.where((delta_dec <= y_tol) & (delta_ra <= x_tol))[0]
         return idx_obs
 
-- 
2.43.0


From fec1766ffa59ef0bcef375c73adf5ba8ae8b36af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:22 +0000
Subject: [PATCH 054/172] fix: errors of openorb were ignored for basic
 ephemerides

---
 rubin_sim/moving_objects/ooephemerides.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/rubin_sim/moving_objects/ooephemerides.py b/rubin_sim/moving_objects/ooephemerides.py
index 8cbb6d7..53a786f 100644
--- a/rubin_sim/moving_objects/ooephemerides.py
+++ b/rubin_sim/moving_objects/ooephemerides.py
@@ -600,12 +600,7 @@ class PyOrbEphemerides:
         # t = time.time()
         eph_times = self._convert_times(times, time_scale=time_scale)
         if eph_type.lower() == "basic":
-            oorb_ephs, err = oo.pyoorb.oorb_ephemeris_basic(
-                in_orbits=self.oorb_elem,
-                in_obscode=obscode,
-                in_date_ephems=eph_times,
-                in_dynmodel=eph_mode,
-            )
+            oorb_ephs = self._generate_oorb_ephs_basic(eph_times, obscode=obscode, eph_mode=eph_mode)
             ephs = self._convert_oorb_ephs_basic(oorb_ephs, by_object=by_object)
         elif eph_type.lower() == "full":
             oorb_ephs = self._generate_oorb_ephs_full(eph_times, obscode=obscode, eph_mode=eph_mode)
-- 
2.43.0


From de8355cafd0f4f1db3b67f69246750075c92e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:19 +0000
Subject: [PATCH 055/172] fix: orbit files with a delimiter were read as
 nothing but headers

---
 rubin_sim/moving_objects/orbits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 5765750..0658e79 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -1,5 +1,6 @@
 __all__ = ("Orbits",)
 
+import re
 import warnings
 
 import numpy as np
@@ -305,7 +306,10 @@ class Orbits:
             with open(orbit_file, "r") as fp:
                 headervalues = None
                 for line in fp:
-                    values = line.split()
+                    if delim is None or len(delim) == 1:
+                        values = [value.strip() for value in line.split(delim)]
+                    else:
+                        values = re.split(delim, line.strip())
                     try:
                         # If it is a valid orbit line,
                         # we expect column 3 to be a number.
-- 
2.43.0


From 393b095ee1aa8e429c6471c0917e50928572f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:19 +0000
Subject: [PATCH 056/172] fix: headerless orbit files with the CART format were
 rejected

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 0658e79..55641ba 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -395,7 +395,7 @@ class Orbits:
 
             if orbits["FORMAT"][0] == "KEP":
                 orbits.columns = names_kep
-            elif orbits["FORMAT"][0] == "CAR":
+            elif orbits["FORMAT"][0] in ("CAR", "CART"):
                 orbits.columns = names_car
 
         else:
-- 
2.43.0


From bcab9e29f44a2347291839322b1e3a26cc1c4b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:19 +0000
Subject: [PATCH 057/172] fix: update_orbits replaced H and g by defaults when
 the new orbits had none

---
 rubin_sim/moving_objects/orbits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 55641ba..d4b788f 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -505,7 +505,7 @@ class Orbits:
         ----------
         neworb: `pd.DataFrame`
         """
-        col_orig = ["obj_id", "sed_filename"]
-        new_order = ["obj_id"] + [n for n in neworb.columns] + ["sed_filename"]
+        col_orig = ["obj_id"] + [c for c in ("H", "g") if c not in neworb] + ["sed_filename"]
+        new_order = ["obj_id"] + [n for n in neworb.columns] + col_orig[1:]
         updated_orbits = neworb.join(self.orbits[col_orig])[new_order]
         self.set_orbits(updated_orbits)
-- 
2.43.0


From 305100584902014cfbca78e062f1a620c8fc5204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:00 +0000
Subject: [PATCH 058/172] fix: ChebyFits kept segment lengths that do not fit
 the time span, for few decimals

---
 rubin_sim/moving_objects/cheby_fits.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index a1ae6ba..2a6813b 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -267,14 +267,20 @@ class ChebyFits:
         counter = 0
         prev_int_factor = 0
         num_tolerance = 10.0 ** (-1 * (self.n_decimal - 1))
-        while (length > 0) and ((self.t_span % length) > num_tolerance) and (counter < 20):
+
+        def leftover(length):
+            # A remainder long enough to be fit as a segment does not count.
+            allowed = min(num_tolerance, self._length_to_timestep(length) / 4.0)
+            return (self.t_span % length) > allowed
+
+        while (length > 0) and leftover(length) and (counter < 20):
             int_factor = int(self.t_span / length) + 1  # round up / ceiling
             if int_factor == prev_int_factor:
                 int_factor = prev_int_factor + 1
             prev_int_factor = int_factor
             length = round(self.t_span / int_factor, self.n_decimal)
             counter += 1
-        if (length <= 0) or (self.t_span % length) > num_tolerance:
+        if (length <= 0) or leftover(length):
             # Add this entire segment into the failed list.
             for obj_id in self.orbits_obj.orbits["obj_id"].to_numpy():
                 self.failed.append((obj_id, self.t_start, self.t_end))
-- 
2.43.0


From 718e463f6027761c87380c698fc88ded500f9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:23 +0000
Subject: [PATCH 059/172] fix: update_orbits of a single orbit taken from a set
 lost its id and SED

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index d4b788f..eccd987 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -116,7 +116,7 @@ class Orbits:
         # Do we have a single item or multiples?
         if isinstance(orbits, pd.Series):
             # Passed a single SSO in Series, convert to a DataFrame.
-            orbits = pd.DataFrame([orbits])
+            orbits = pd.DataFrame([orbits]).reset_index(drop=True)
         elif isinstance(orbits, np.ndarray):
             # Passed a numpy array, convert to DataFrame.
             orbits = pd.DataFrame.from_records(orbits)
-- 
2.43.0


From 83e0c1cf3b55b51f2408c4c0edae154e68e0a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:11 +0000
Subject: [PATCH 060/172] fix: set_orbits of a single numpy record failed

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index eccd987..b41c331 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -122,7 +122,7 @@ class Orbits:
             orbits = pd.DataFrame.from_records(orbits)
         elif isinstance(orbits, np.record):
             # This was a single object in a numpy array
-            orbits = pd.DataFrame.from_records([orbits], columns=orbits.dtype.names)
+            orbits = pd.DataFrame.from_records([orbits.tolist()], columns=orbits.dtype.names)
         elif isinstance(orbits, pd.DataFrame):
             # This was a pandas dataframe ..
             # but we probably want to drop the index and recount.
-- 
2.43.0


From dd7039b7e5a3ba9a25836e5f3c27adaa308188b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 061/172] fix: moving object observations of a single visit
 crashed

---
 rubin_sim/moving_objects/base_obs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 8191776..7b12532 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -371,7 +371,8 @@ class BaseObs:
                 obs_data[self.obs_ra],
                 obs_data[self.obs_dec],
             )
-        idx_obs = np.where(sep <= r_fov)[0]
+        # A single separation comes as a scalar.
+        idx_obs = np.where(np.atleast_1d(sep) <= r_fov)[0]
         return idx_obs
 
     def sso_in_rectangle_fov(self, ephems, obs_data):
-- 
2.43.0


From 13cd3f61f70c5ab993eca803841ddecb88a55216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 062/172] fix: CountBeyondThreshold with both thresholds raised

---
 rubin_sim/maf/metrics/simple_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index f2b5bde..4fdba37 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -303,7 +303,7 @@ class CountBeyondThreshold(BaseMetric):
             count = len(
                 np.where(
                     (data_slice[self.colname] > self.lower_threshold)
-                    and (data_slice[self.colname] < self.upper_threshold)
+                    & (data_slice[self.colname] < self.upper_threshold)
                 )[0]
             )
         return count
-- 
2.43.0


From 0522850e36101a80a54c8e9bebeeb0a7d2e4c83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 063/172] fix: accumulated metrics counted one visit taken
 after the bin

---
 rubin_sim/maf/metrics/vector_metrics.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/metrics/vector_metrics.py b/rubin_sim/maf/metrics/vector_metrics.py
index 2f357da..b517481 100644
--- a/rubin_sim/maf/metrics/vector_metrics.py
+++ b/rubin_sim/maf/metrics/vector_metrics.py
@@ -81,8 +81,7 @@ class AccumulateMetric(VectorMetric):
 
         result = self.function.accumulate(data_slice[self.col])
         indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
-        result = result[indices]
+        result = result[np.maximum(indices - 1, 0)]
         result[np.where(indices == 0)] = self.badval
         return result
 
@@ -93,8 +92,7 @@ class AccumulateCountMetric(AccumulateMetric):
         to_count = np.ones(data_slice.size, dtype=int)
         result = self.function.accumulate(to_count)
         indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
-        result = result[indices]
+        result = result[np.maximum(indices - 1, 0)]
         result[np.where(indices == 0)] = self.badval
         return result
 
@@ -145,8 +143,7 @@ class AccumulateM5Metric(AccumulateMetric):
 
         result = np.add.accumulate(flux)
         indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
-        result = result[indices]
+        result = result[np.maximum(indices - 1, 0)]
         result = 1.25 * np.log10(result)
         result[np.where(indices == 0)] = self.badval
         return result
-- 
2.43.0


From e16eeabaeb2ad8b4a815e87f9631901b4ce123ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 064/172] fix: GeneralUniformityMetric did not scale values to
 the range from min_value

---
 rubin_sim/maf/metrics/cadence_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/cadence_metrics.py b/rubin_sim/maf/metrics/cadence_metrics.py
index 5e29bd9..469d2ce 100644
--- a/rubin_sim/maf/metrics/cadence_metrics.py
+++ b/rubin_sim/maf/metrics/cadence_metrics.py
@@ -145,7 +145,7 @@ class GeneralUniformityMetric(BaseMetric):
             max_value = data_slice[self.col].max()
         else:
             max_value = self.max_value
-        scaled_values = (data_slice[self.col] - min_value) / max_value
+        scaled_values = (data_slice[self.col] - min_value) / (max_value - min_value)
         scaled_values.sort()  # Just to be sure
         n_cum = np.arange(0, scaled_values.size) / float(scaled_values.size - 1)
         d_max = np.max(np.abs(n_cum - scaled_values))
-- 
2.43.0


From f23792b8feb8218c034776383df04b1dcac3adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 065/172] fix: VisitGroupsMetric counted two visits of a night
 whatever their separation

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index 00450f6..ee1b4fc 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -217,7 +217,7 @@ class VisitGroupsMetric(BaseMetric):
                     if not timegood[-2] and not timetooclose[-2]:
                         ntooclose += 1
             else:
-                if timegood.size > 0:
+                if timegood.any():
                     nvisits += 2
             # Count up all visits for night.
             if nvisits > 0:
-- 
2.43.0


From ad04ccb58128452ad38ae445ad463d7b5a7cdca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 066/172] fix: a group later in its lunation broke a sequence
 of lunations

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index ee1b4fc..dc62863 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -320,11 +320,7 @@ class VisitGroupsMetric(BaseMetric):
         for lunation in lunations:
             # Find visits within lunation.
             vl, nl = self._in_lunation(metricval["visits"], metricval["nights"], lunation, lunation_length)
-            # If no visits this lunation:
-            if len(vl) == 0:
-                max_sequence = max(max_sequence, cur_sequence)
-                cur_sequence = 0
-            # Else, look to see if groups can be made from the visits.
+            # Look to see if groups can be made from the visits.
             for n in nl:
                 # Find visits which are in groups within the lunation.
                 vw, nw = self._in_window(vl, nl, n, self.window, self.min_n_visits)
@@ -332,10 +328,10 @@ class VisitGroupsMetric(BaseMetric):
                 if len(nw) >= self.min_n_nights:
                     cur_sequence += 1
                     break
-                # Otherwise we're not in a sequence (anymore, or still).
-                else:
-                    max_sequence = max(max_sequence, cur_sequence)
-                    cur_sequence = 0
+            # Otherwise we're not in a sequence (anymore, or still).
+            else:
+                max_sequence = max(max_sequence, cur_sequence)
+                cur_sequence = 0
         # Pick up last sequence if were in a sequence at last lunation.
         max_sequence = max(max_sequence, cur_sequence)
         return max_sequence
-- 
2.43.0


From 02f444a9371e171e3397d13393257ec4b4fe1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 067/172] fix: NightgapsMetric of all gaps raised for visits of
 a single night

---
 rubin_sim/maf/metrics/tgaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/tgaps.py b/rubin_sim/maf/metrics/tgaps.py
index 62c81be..e3c4834 100644
--- a/rubin_sim/maf/metrics/tgaps.py
+++ b/rubin_sim/maf/metrics/tgaps.py
@@ -249,7 +249,7 @@ class NightgapsMetric(BaseMetric):
             all_diffs = []
             for i in np.arange(1, nights.size, 1):
                 all_diffs.append((nights - np.roll(nights, i))[i:])
-            dnights = np.concatenate(all_diffs)
+            dnights = np.concatenate(all_diffs) if len(all_diffs) > 0 else np.array([])
         else:
             dnights = np.diff(nights)
         result, bins = np.histogram(dnights, self.bins)
-- 
2.43.0


From 13400d92fb5a6264c1c0b396b637bc867873df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 068/172] fix: CoaddM5PerNightMetric merged or dropped nights
 at the end of the survey

---
 rubin_sim/maf/metrics/tgaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/tgaps.py b/rubin_sim/maf/metrics/tgaps.py
index e3c4834..832f658 100644
--- a/rubin_sim/maf/metrics/tgaps.py
+++ b/rubin_sim/maf/metrics/tgaps.py
@@ -329,7 +329,7 @@ class CoaddM5PerNightMetric(BaseMetric):
             data_slice[self.night_col],
             data_slice[self.m5_col],
             statistic=coadd_m5,
-            bins=np.arange(0, 3653, 1),
+            bins=np.arange(data_slice[self.night_col].min(), data_slice[self.night_col].max() + 2, 1),
         )
         # Drop the nights with no observations (-inf)
         m5_per_night = m5_per_night[np.where(m5_per_night > 0)]
-- 
2.43.0


From 3e22ec3f98eb14c9a7bb79baa88cc92f8a2eab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:12 +0000
Subject: [PATCH 069/172] fix: Coaddm5Metric of one filter did not ask for the
 filter column

---
 rubin_sim/maf/metrics/simple_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index 4fdba37..6bd7f69 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -94,7 +94,8 @@ class Coaddm5Metric(BaseMetric):
         self.filter_name = filter_name
         self.filter_col = filter_col
         self.m5_col = m5_col
-        super().__init__(col=m5_col, metric_name=metric_name, units=units, **kwargs)
+        cols = m5_col if filter_name is None else [m5_col, filter_col]
+        super().__init__(col=cols, metric_name=metric_name, units=units, **kwargs)
 
     @staticmethod
     def coadd(single_visit_m5s):
-- 
2.43.0


From d73575d99e9c5b558a840676b4c9bdb1a490c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:12 +0000
Subject: [PATCH 070/172] fix: StringCountMetric changed the notes of the
 visits it counted

---
 rubin_sim/maf/metrics/string_count_metric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/string_count_metric.py b/rubin_sim/maf/metrics/string_count_metric.py
index f8c5b1a..ba13635 100644
--- a/rubin_sim/maf/metrics/string_count_metric.py
+++ b/rubin_sim/maf/metrics/string_count_metric.py
@@ -53,6 +53,7 @@ class StringCountMetric(BaseMetric):
 
     def run(self, data_slice, slice_point=None):
 
+        values = data_slice[self.col]
         # If we need to clip off trailing integer
         if self.clip_end:
             replace_col = []
@@ -66,9 +67,9 @@ class StringCountMetric(BaseMetric):
                         replace_col.append(val)
                 else:
                     replace_col.append(val)
-            data_slice[self.col] = replace_col
+            values = replace_col
 
-        counter = Counter(data_slice[self.col])
+        counter = Counter(values)
         # convert to a numpy array
         lables = list(counter.keys())
         # Numpy can't handle empty string as a dtype
-- 
2.43.0


From 7a516a37457023c0ef420b6e980eb125645425e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:12 +0000
Subject: [PATCH 071/172] fix: NgalScaleMetric depended on visits in other
 filters and on their order

---
 rubin_sim/maf/metrics/scaling_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/scaling_metrics.py b/rubin_sim/maf/metrics/scaling_metrics.py
index 7a9a884..38886e5 100644
--- a/rubin_sim/maf/metrics/scaling_metrics.py
+++ b/rubin_sim/maf/metrics/scaling_metrics.py
@@ -57,7 +57,7 @@ class NgalScaleMetric(BaseMetric):
     def run(self, data_slice, slice_point):
         # I'm a little confused why there's a dust cut and an M5 cut,
         # but whatever
-        a_x = self.ax1[data_slice[self.filter_col][0]] * slice_point["ebv"]
+        a_x = self.ax1[self.filtername] * slice_point["ebv"]
         if a_x > self.a_max:
             return 0
 
@@ -66,7 +66,7 @@ class NgalScaleMetric(BaseMetric):
         if coadd_m5 < self.m5min:
             return 0
 
-        theta = np.median(data_slice[self.seeing_col])
+        theta = np.median(data_slice[self.seeing_col][in_filt])
         # N gals per arcmin2
         ngal_per_arcmin2 = 57 * (0.75 / theta) ** 1.5
 
-- 
2.43.0


From cd5f88b8ef2a7ddeb4cd473138819b2d3e49b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:23 +0000
Subject: [PATCH 072/172] fix: SingleLinearMultibandModelMetric and its nested
 version raised with mean depths of several bands

---
 rubin_sim/maf/metrics/uniformity_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/uniformity_metrics.py b/rubin_sim/maf/metrics/uniformity_metrics.py
index 97d1659..5834610 100644
--- a/rubin_sim/maf/metrics/uniformity_metrics.py
+++ b/rubin_sim/maf/metrics/uniformity_metrics.py
@@ -126,7 +126,7 @@ class SingleLinearMultibandModelMetric(BaseMetric):
         ).T
         for i, lsst_filter in enumerate(self.bands):
             if lsst_filter in self.mean_depth:
-                depths[i] -= self.mean_depth[lsst_filter]
+                depths[:, i] -= self.mean_depth[lsst_filter]
         # Don't raise Exceptions in the middle of metrics -
         # assert depths.shape[0] >= 1
         if depths.shape[0] < 1:
@@ -296,7 +296,7 @@ class NestedLinearMultibandModelMetric(BaseMetric):
             # if provided, subtract the mean
             for i, lsst_filter in enumerate(lsst_filters):
                 if lsst_filter in self.mean_depth:
-                    depths[i] -= self.mean_depth[lsst_filter]
+                    depths[:, i] -= self.mean_depth[lsst_filter]
 
             # now assemble the results
             model_arr = np.array([model_dict[x] if x in model_dict else 0.0 for x in lsst_filters])
-- 
2.43.0


From 22bc8aae76f7c483fa0d6af02458ea3e0b3ce468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:23 +0000
Subject: [PATCH 073/172] fix: ParallaxDcrDegenMetric did not ask for the
 filter column

---
 rubin_sim/maf/metrics/calibration_metrics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 87e7584..c68ff54 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -480,6 +480,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
             "dec_dcr_amp",
             seeing_col,
             m5_col,
+            filter_col,
         ]
         super(ParallaxDcrDegenMetric, self).__init__(cols, metric_name=metric_name, units=units, **kwargs)
         self.mags = {}
-- 
2.43.0


From b48329d6f2788c780d8ff6e25b93d6626da33a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:31 +0000
Subject: [PATCH 074/172] fix: NestedLinearMultibandModelMetric raised with
 current numpy

---
 rubin_sim/maf/metrics/uniformity_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/uniformity_metrics.py b/rubin_sim/maf/metrics/uniformity_metrics.py
index 5834610..25be669 100644
--- a/rubin_sim/maf/metrics/uniformity_metrics.py
+++ b/rubin_sim/maf/metrics/uniformity_metrics.py
@@ -302,7 +302,7 @@ class NestedLinearMultibandModelMetric(BaseMetric):
             model_arr = np.array([model_dict[x] if x in model_dict else 0.0 for x in lsst_filters])
             cst = model_dict["cst"] if "cst" in model_dict else 0.0
 
-            result_arr[binnumber] = self.post_processing_fn(cst + np.dot(depths, model_arr))
+            result_arr[binnumber] = self.post_processing_fn(cst + np.dot(depths[0], model_arr))
 
         # returns array where each element of the original
         # input arr_of_model_dicts contains a scalar value resulting
-- 
2.43.0


From c95c19363c4cbc3b30195011cce6c9b35ffafd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:31 +0000
Subject: [PATCH 075/172] fix: VisitGapMetric raised for a single visit

---
 rubin_sim/maf/metrics/cadence_metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/cadence_metrics.py b/rubin_sim/maf/metrics/cadence_metrics.py
index 469d2ce..916a36e 100644
--- a/rubin_sim/maf/metrics/cadence_metrics.py
+++ b/rubin_sim/maf/metrics/cadence_metrics.py
@@ -396,5 +396,7 @@ class VisitGapMetric(BaseMetric):
     def run(self, data_slice, slice_point=None):
         data_slice.sort(order=self.mjd_col)
         diff = np.diff(data_slice[self.mjd_col])
+        if np.size(diff) == 0:
+            return self.badval
         result = self.reduce_func(diff) * 24.0
         return result
-- 
2.43.0


From 899258345f3aec3473cccf49adff2d68fe266159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:31 +0000
Subject: [PATCH 076/172] fix: ColorSlopeMetric ignored the names of its
 columns

---
 rubin_sim/maf/metrics/color_slope_metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/color_slope_metrics.py b/rubin_sim/maf/metrics/color_slope_metrics.py
index b69bc10..b954313 100644
--- a/rubin_sim/maf/metrics/color_slope_metrics.py
+++ b/rubin_sim/maf/metrics/color_slope_metrics.py
@@ -109,7 +109,9 @@ class ColorSlopeMetric(BaseMetric):
 
         super().__init__(col=cols, units=units, metric_name=metric_name, **kwargs)
 
-        self.sequence_checker = CheckColorSlope(color_length=color_length, slope_length=slope_length)
+        self.sequence_checker = CheckColorSlope(
+            color_length=color_length, slope_length=slope_length, filter_col=filter_col, mjd_col=time_col
+        )
 
     def run(self, data_slice, slice_point=None):
         result = 0
-- 
2.43.0


From 835340be9a0504060065ec1f5d9596dc1d26b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:59 +0000
Subject: [PATCH 077/172] fix: metrics of galaxy counts and depth with cuts
 ignored the names of their columns

---
 .../lss_obs_strategy/galaxy_counts_metric_extended.py         | 2 +-
 rubin_sim/maf/metrics/uniformity_metrics.py                   | 4 +++-
 rubin_sim/maf/metrics/weak_lensing_systematics_metric.py      | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py b/rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py
index 94a8aac..de1d4be 100644
--- a/rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py
+++ b/rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py
@@ -100,7 +100,7 @@ class GalaxyCountsMetricExtended(BaseMetric):
         # Specific band (e.g. r-band) will be provided by the sql constraint.
         if self.include_dust_extinction:
             # include dust extinction when calculating the co-added depth
-            self.coaddmetric = ExgalM5(m5_col=self.m5_col)
+            self.coaddmetric = ExgalM5(m5_col=self.m5_col, filter_col=self.filter_col)
         else:
             self.coaddmetric = Coaddm5Metric(m5_col=self.m5_col)
 
diff --git a/rubin_sim/maf/metrics/uniformity_metrics.py b/rubin_sim/maf/metrics/uniformity_metrics.py
index 25be669..81303c8 100644
--- a/rubin_sim/maf/metrics/uniformity_metrics.py
+++ b/rubin_sim/maf/metrics/uniformity_metrics.py
@@ -335,7 +335,9 @@ class NestedRIZExptimeExgalM5Metric(BaseMetric):
 
         cols = [self.m5_col, self.filter_col, self.exptime_col]
         super().__init__(cols, metric_name=metric_name, maps=maps, badval=badval, **kwargs)
-        self.riz_exptime_metric = RIZDetectionCoaddExposureTime(ebvlim=extinction_cut)
+        self.riz_exptime_metric = RIZDetectionCoaddExposureTime(
+            exp_time_col=exptime_col, filter_col=filter_col, ebvlim=extinction_cut
+        )
         self.exgalm5_metric = ExgalM5WithCuts(
             m5_col=m5_col,
             filter_col=filter_col,
diff --git a/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py b/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
index 54e0c4e..07a2c65 100644
--- a/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
+++ b/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
@@ -42,7 +42,7 @@ class ExgalM5WithCuts(BaseMetric):
         self.lsst_filter = lsst_filter
         # I thought about inheriting from ExGalM5 instead, but the columns
         # specification is more complicated
-        self.exgal_m5 = ExgalM5(m5_col=m5_col, units=units)
+        self.exgal_m5 = ExgalM5(m5_col=m5_col, filter_col=filter_col, units=units)
         super().__init__(
             col=[self.m5_col, self.filter_col],
             metric_name=metric_name,
-- 
2.43.0


From 042b79cbe43468b5c90dd2640efe36ee6f16d02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:59 +0000
Subject: [PATCH 078/172] fix: SNSNRMetric did not ask for the position columns
 it reads

---
 rubin_sim/maf/metrics/sn_snr_metric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/sn_snr_metric.py b/rubin_sim/maf/metrics/sn_snr_metric.py
index ca8f742..0c34e7f 100644
--- a/rubin_sim/maf/metrics/sn_snr_metric.py
+++ b/rubin_sim/maf/metrics/sn_snr_metric.py
@@ -72,6 +72,8 @@ class SNSNRMetric(metrics.BaseMetric):
             self.vistime_col,
             self.exptime_col,
             self.season_col,
+            self.ra_col,
+            self.dec_col,
         ]
         if coadd:
             cols += ["coadd"]
-- 
2.43.0


From 3a787de80daf1efff72100cc4af6c7fe8bd4eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:58 +0000
Subject: [PATCH 079/172] fix: SNSLMetric and collapse_night ignored the name
 of the time column

---
 rubin_sim/maf/metrics/sn_sl_metric.py | 2 +-
 rubin_sim/maf/utils/maf_utils.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/sn_sl_metric.py b/rubin_sim/maf/metrics/sn_sl_metric.py
index ff51795..dcecb59 100644
--- a/rubin_sim/maf/metrics/sn_sl_metric.py
+++ b/rubin_sim/maf/metrics/sn_sl_metric.py
@@ -206,7 +206,7 @@ class SNSLMetric(metrics.BaseMetric):
                 n_lensed_s_ne__ia += 0
             else:
                 # Find the cadence (days) between visits within the season
-                cadence = np.diff(night_slice["observationStartMJD"][s_idx])
+                cadence = np.diff(night_slice[self.mjd_col][s_idx])
                 # But only the values between nights, not within nights
                 cadence = np.median(cadence[np.where(cadence > 0.4)])
                 # Season length in years
diff --git a/rubin_sim/maf/utils/maf_utils.py b/rubin_sim/maf/utils/maf_utils.py
index 47dc9a2..c23687f 100644
--- a/rubin_sim/maf/utils/maf_utils.py
+++ b/rubin_sim/maf/utils/maf_utils.py
@@ -86,7 +86,7 @@ def collapse_night(
         )
 
     night_slice = np.concatenate([night_slice[f] for f in night_slice])
-    night_slice.sort(order=["observationStartMJD"])
+    night_slice.sort(order=[mjd_col])
 
     return night_slice
 
-- 
2.43.0


From e5485cebb98333dbda8301c5dd5bfddb654a495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 080/172] fix: SNSNRMetric ignored the name of the filter
 column

---
 rubin_sim/maf/metrics/sn_snr_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/sn_snr_metric.py b/rubin_sim/maf/metrics/sn_snr_metric.py
index 0c34e7f..829deb4 100644
--- a/rubin_sim/maf/metrics/sn_snr_metric.py
+++ b/rubin_sim/maf/metrics/sn_snr_metric.py
@@ -109,7 +109,7 @@ class SNSNRMetric(metrics.BaseMetric):
         -------
         detection rate : `float`
         """
-        good_filters = np.isin(data_slice["filter"], self.filter_names)
+        good_filters = np.isin(data_slice[self.filter_col], self.filter_names)
         data_slice = data_slice[good_filters]
         if data_slice.size == 0:
             return None
-- 
2.43.0


From 2cc0129060351c0ee5e70482ded54aac921a4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:48 +0000
Subject: [PATCH 081/172] fix: Coaddm5Metric of one filter gave -inf without
 visits in that filter

---
 rubin_sim/maf/metrics/simple_metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index 6bd7f69..564383f 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -105,7 +105,9 @@ class Coaddm5Metric(BaseMetric):
         if len(data_slice) == 0:
             return self.badval
         if self.filter_name is not None:
-            matched = np.where(data_slice[self.filter_col] == self.filter_name)
+            matched = np.where(data_slice[self.filter_col] == self.filter_name)[0]
+            if len(matched) == 0:
+                return self.badval
             coadd = self.coadd(data_slice[matched][self.m5_col])
         else:
             coadd = self.coadd(data_slice[self.m5_col])
-- 
2.43.0


From 84b1308ea5345f339565f5545509c7d5e659d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:48 +0000
Subject: [PATCH 082/172] fix: PhaseGapMetric of a single period gave NaN or
 averaged gaps that do not exist

---
 rubin_sim/maf/metrics/phase_gap_metric.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/phase_gap_metric.py b/rubin_sim/maf/metrics/phase_gap_metric.py
index cf739d1..126c952 100644
--- a/rubin_sim/maf/metrics/phase_gap_metric.py
+++ b/rubin_sim/maf/metrics/phase_gap_metric.py
@@ -50,13 +50,12 @@ class PhaseGapMetric(BaseMetric):
         if len(data_slice) < self.n_visits_min:
             return self.badval
         # Create 'nPeriods' evenly spaced periods within range of min to max.
-        step = (self.period_max - self.period_min) / self.n_periods
-        if step == 0:
+        if self.period_max == self.period_min or self.n_periods == 1:
             periods = np.array([self.period_min])
         else:
             periods = np.arange(self.n_periods)
             periods = periods / np.max(periods) * (self.period_max - self.period_min) + self.period_min
-        max_gap = np.zeros(self.n_periods, float)
+        max_gap = np.zeros(len(periods), float)
 
         for i, period in enumerate(periods):
             # For each period, calculate the phases.
-- 
2.43.0


From 09aae3d99957a016b9efefa53954869e27274f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:48 +0000
Subject: [PATCH 083/172] fix: YearCoverageMetric ignored its name and other
 keywords

---
 rubin_sim/maf/metrics/coverage_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/coverage_metric.py b/rubin_sim/maf/metrics/coverage_metric.py
index d203336..dc39c99 100644
--- a/rubin_sim/maf/metrics/coverage_metric.py
+++ b/rubin_sim/maf/metrics/coverage_metric.py
@@ -40,7 +40,7 @@ class YearCoverageMetric(BaseMetric):
         if units is None:
             units = "N years"
 
-        super().__init__([night_col], units=units)
+        super().__init__([night_col], units=units, **kwargs)
 
     def run(self, data_slice, slice_point):
         hist, be = np.histogram(data_slice[self.night_col], bins=self.bins)
-- 
2.43.0


From 4a8db51d18d96615ab250d57ec5d7538060781b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 084/172] fix: SaturationStacker marked the wrong visits as
 saturated by the sky

The index within the visits of one filter was used as an index in all visits.
---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 7f394bd..989f1e3 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -114,7 +114,7 @@ class SaturationStacker(BaseStacker):
                 sim_data[self.airmass_col][in_filt] - 1.0
             )
             # Explicitly make sure if sky has saturated we return NaN
-            sim_data["saturation_mag"][np.where(remaining_counts_peak < 0)] = np.nan
+            sim_data["saturation_mag"][in_filt[remaining_counts_peak < 0]] = np.nan
 
         return sim_data
 
-- 
2.43.0


From 3b28224813408b99925528de111ec60d8f3e1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 085/172] fix: SaturationStacker raised with zeropoints but
 without extinction values

---
 rubin_sim/maf/stackers/general_stackers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 989f1e3..f86ebd9 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -16,7 +16,7 @@ import astropy.units as u
 import numpy as np
 from astropy.coordinates import GCRS, SkyCoord
 from astropy.time import Time
-from rubin_scheduler.utils import Site, m5_flat_sed
+from rubin_scheduler.utils import Site, SysEngVals, m5_flat_sed
 
 from rubin_sim.maf.utils import load_inst_zeropoints
 
@@ -82,10 +82,9 @@ class SaturationStacker(BaseStacker):
 
     def _run(self, sim_data, cols_present=False):
         if self.zeropoints is None:
-            zp_inst, k_atm = load_inst_zeropoints()
-            self.zeropoints = zp_inst
+            self.zeropoints = load_inst_zeropoints()[0]
         if self.km is None:
-            self.km = k_atm
+            self.km = SysEngVals().k_atm
         for filtername in np.unique(sim_data[self.filter_col]):
             in_filt = np.where(sim_data[self.filter_col] == filtername)[0]
             # Calculate the length of the on-sky time per EXPOSURE
-- 
2.43.0


From a19525c392663f7da71c70f5f48adbed40e2fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 086/172] fix: GalacticStacker said its radians were degrees

---
 rubin_sim/maf/stackers/coord_stackers.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/stackers/coord_stackers.py b/rubin_sim/maf/stackers/coord_stackers.py
index eab5663..176f1ca 100644
--- a/rubin_sim/maf/stackers/coord_stackers.py
+++ b/rubin_sim/maf/stackers/coord_stackers.py
@@ -96,13 +96,10 @@ class GalacticStacker(BaseStacker):
         self.ra_col = ra_col
         self.dec_col = dec_col
         self.degrees = degrees
-        if self.degrees:
-            self.units = ["degrees", "degrees"]
-        else:
-            self.units = ["radians", "radians"]
+        self.units = ["radians", "radians"]
 
     def _run(self, sim_data, cols_present=False):
-        # raCol and DecCol in radians, gall/b in radians.
+        # gall/b are always in radians.
         if cols_present:
             # Column already present in data;
             # assume it is correct and does not need recalculating.
-- 
2.43.0


From f2dab3804e4f70a072d5a4f5abcc03295b0c118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 087/172] fix: EclipticStacker raised when subtracting the
 longitude of the sun

---
 rubin_sim/maf/stackers/coord_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/coord_stackers.py b/rubin_sim/maf/stackers/coord_stackers.py
index 176f1ca..58cd120 100644
--- a/rubin_sim/maf/stackers/coord_stackers.py
+++ b/rubin_sim/maf/stackers/coord_stackers.py
@@ -173,7 +173,7 @@ class EclipticStacker(BaseStacker):
             sim_data["eclipLat"] = coord_ecl.lat.rad
 
             if self.subtract_sun_lon:
-                times = Time(sim_data[self.mjd_col])
+                times = Time(sim_data[self.mjd_col], format="mjd")
                 sun = get_sun(times)
                 sun_ecl = sun.geocentricmeanecliptic
                 lon = wrap_ra(coord_ecl.lon.rad - sun_ecl.lon.rad)
-- 
2.43.0


From 50680c0be40e33d6dd7e5999cc95596ce59fd523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 088/172] fix: NFollowStacker swapped the longitude and
 latitude of the observatories

---
 rubin_sim/maf/stackers/n_follow_stacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/n_follow_stacker.py b/rubin_sim/maf/stackers/n_follow_stacker.py
index 692eb9b..b0948e9 100644
--- a/rubin_sim/maf/stackers/n_follow_stacker.py
+++ b/rubin_sim/maf/stackers/n_follow_stacker.py
@@ -171,8 +171,8 @@ class NFollowStacker(BaseStacker):
                 alt, az = ra_dec2_alt_az(
                     ra,
                     dec,
-                    obs_lon,
                     obs_lat,
+                    obs_lon,
                     sim_data[self.mjd_col] + step / 24.0,
                     altonly=True,
                 )
-- 
2.43.0


From 5135fe889fc1c90b636db8f1deb212168c8ddbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 089/172] fix: Dcr2Stacker raised when given its zenith
 distance stacker

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index f86ebd9..f92e966 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -589,7 +589,7 @@ class Dcr2Stacker(BaseStacker):
         if zstacker is None:
             self.zstacker = ZenithDistStacker(alt_col=alt_col, degrees=self.degrees)
         else:
-            self.ztacker = zstacker
+            self.zstacker = zstacker
 
         if pastacker is None:
             self.pastacker = ParallacticAngleStacker(
-- 
2.43.0


From f0d31f751123e7639acdd5d2d664a42fa10ac976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 090/172] fix: ZenithDistStacker in radians had no units

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index f92e966..4d176bc 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -277,7 +277,7 @@ class ZenithDistStacker(BaseStacker):
         if self.degrees:
             self.units = ["degrees"]
         else:
-            self.unit = ["radians"]
+            self.units = ["radians"]
         self.cols_req = [self.alt_col]
 
     def _run(self, sim_data, cols_present=False):
-- 
2.43.0


From 15d14338ce44448b1f70e212e2a7a22e1a078e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 091/172] fix: M5OptimalStacker did not ask for the depth
 column

---
 rubin_sim/maf/stackers/m5_optimal_stacker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/stackers/m5_optimal_stacker.py b/rubin_sim/maf/stackers/m5_optimal_stacker.py
index 58fe538..d201643 100644
--- a/rubin_sim/maf/stackers/m5_optimal_stacker.py
+++ b/rubin_sim/maf/stackers/m5_optimal_stacker.py
@@ -85,6 +85,7 @@ class M5OptimalStacker(BaseStacker):
             dec_col,
             sky_bright_col,
             seeing_col,
+            m5_col,
             filter_col,
             moon_alt_col,
             sun_alt_col,
-- 
2.43.0


From 17d2f864e90f437ad0e54c2db97e7ade9ffc6168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 092/172] fix: comets were 10 magnitudes too bright

The distance was in metres where the coma formula needs centimetres.
---
 rubin_sim/maf/stackers/mo_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/mo_stackers.py b/rubin_sim/maf/stackers/mo_stackers.py
index 819de25..68e4216 100644
--- a/rubin_sim/maf/stackers/mo_stackers.py
+++ b/rubin_sim/maf/stackers/mo_stackers.py
@@ -347,7 +347,7 @@ class CometAppMagStacker(BaseMoStacker):
         radius_aperture = sso_obs[self.seeing_col] * self.ap_scale
         rho = 725e5 * sso_obs[self.delta_col] * radius_aperture
         # Calculate the expected apparent of the comet coma = sun + correction
-        delta = sso_obs[self.delta_col] * KM_PER_AU * 1000  # delta in cm
+        delta = sso_obs[self.delta_col] * KM_PER_AU * 1e5  # delta in cm
         dm = -2.5 * np.log10(afrho * rho / (2 * sso_obs[self.rh_col] * delta) ** 2)
         coma = np.zeros(len(sso_obs), float)
         # This calculates a coma mag that scales with the sun's color in
-- 
2.43.0


From 7fa4b3d9a4eacf434c67d7810e5fb41982c14e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:02 +0000
Subject: [PATCH 093/172] fix: WFDlabelStacker raised for a single visit

---
 rubin_sim/maf/stackers/label_stackers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/label_stackers.py b/rubin_sim/maf/stackers/label_stackers.py
index 5b51851..d42bb9b 100644
--- a/rubin_sim/maf/stackers/label_stackers.py
+++ b/rubin_sim/maf/stackers/label_stackers.py
@@ -89,7 +89,8 @@ class WFDlabelStacker(BaseStacker):
                 d.add(self.define_ddname(p))
         # Identify Healpixels associated with each visit.
         vec = hp.dir2vec(sim_data[self.ra_col], sim_data[self.dec_col], lonlat=True)
-        vec = vec.swapaxes(0, 1)
+        # A single visit comes back without its axis.
+        vec = np.reshape(vec, (3, len(sim_data))).swapaxes(0, 1)
         radius = np.radians(1.75)  # fov radius
         area_id = np.zeros(len(sim_data), self.cols_added_dtypes[0])
         for i, (v, note) in enumerate(zip(vec, sim_data[self.note_col])):
-- 
2.43.0


From 2ac79dcb3b0282ca7ed875f2b93161aa5da36aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:02 +0000
Subject: [PATCH 094/172] fix: two columns of Dcr2Stacker were not known as
 stacker columns

ColInfo pairs the columns with their units, of which there were two for four columns.
---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 4d176bc..cb052d3 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -561,7 +561,7 @@ class Dcr2Stacker(BaseStacker):
         zstacker=None,
         pastacker=None,
     ):
-        self.units = ["arcsec", "arcsec"]
+        self.units = ["arcsec^2", "arcsec^2", "arcsec^2", "arcsec^2"]
 
         # Calculated using a flat SED, units are arcseconds^2
         if dcr2_magnitudes is None:
-- 
2.43.0


From eb619e61f673cd9bb1bcf703565492ef13325173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 095/172] fix: DiscoveryMetric mixed up visits that were not in
 time order

The indexes of the tracklets refer to the visits sorted by time, which is
how the child metrics use them, but they were mapped to the unsorted visits
and then used with the sorted ones.
---
 rubin_sim/maf/metrics/mo_metrics.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index a06e2a1..2ce833b 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -436,7 +436,7 @@ class DiscoveryMetric(BaseMoMetric):
             & (n_idx_many_end + 1 - n_idx_many > self.n_obs_per_night)
             & (times_end - times_start > self.t_max)
         )[0]
-        for i, j, c in zip(vis_sort[n_idx_many][check], vis_sort[n_idx_many_end][check], check):
+        for i, j, c in zip(n_idx_many[check], n_idx_many_end[check], check):
             t = sso_obs[self.mjd_col][vis][vis_sort][i : j + 1]
             dtimes = (np.roll(t, 1 - self.n_obs_per_night) - t)[:-1]
             tidx = np.where((dtimes >= self.t_min) & (dtimes <= self.t_max))[0]
@@ -445,25 +445,19 @@ class DiscoveryMetric(BaseMoMetric):
         # 'good' provides mask for observations which could count as
         # 'good to make tracklets' against sso_obs[vis_sort][n_idx_many].
         # Now identify tracklets which can make tracks.
-        good_idx = vis_sort[n_idx_many][good == 1]
-        good_idx_ends = vis_sort[n_idx_many_end][good == 1]
+        good_idx = n_idx_many[good == 1]
+        good_idx_ends = n_idx_many_end[good == 1]
         # print 'good tracklets', nights[good_idx]
         if len(good_idx) < self.n_nights_per_window:
             return self.badval
-        delta_nights = (
-            np.roll(sso_obs[self.night_col][vis][good_idx], 1 - self.n_nights_per_window)
-            - sso_obs[self.night_col][vis][good_idx]
-        )
+        delta_nights = np.roll(nights[good_idx], 1 - self.n_nights_per_window) - nights[good_idx]
         # Identify the index in sso_obs[vis][good_idx] (sorted by mjd)
         # where the discovery opportunity starts.
         start_idxs = np.where((delta_nights >= 0) & (delta_nights <= self.t_window))[0]
         # Identify the index where the discovery opportunity ends.
         end_idxs = np.zeros(len(start_idxs), dtype="int")
         for i, sIdx in enumerate(start_idxs):
-            in_window = np.where(
-                sso_obs[self.night_col][vis][good_idx] - sso_obs[self.night_col][vis][good_idx][sIdx]
-                <= self.t_window
-            )[0]
+            in_window = np.where(nights[good_idx] - nights[good_idx][sIdx] <= self.t_window)[0]
             end_idxs[i] = in_window.max()
         # Convert back to index based on sso_obs[vis] (sorted by expMJD).
         start_idxs = good_idx[start_idxs]
-- 
2.43.0


From 80ca7f5c1c925ce1089bf57250727702501698aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 096/172] fix: DiscoveryVelocityMetric could not be created

It read snrLimit of its parent, which is called snr_limit.
---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 2ce833b..941d215 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -680,7 +680,7 @@ class DiscoveryVelocityMetric(BaseChildMetric):
     def __init__(self, parent_discovery_metric, badval=-999, **kwargs):
         super().__init__(parent_discovery_metric, badval=badval, **kwargs)
         self.i = 0
-        self.snr_limit = parent_discovery_metric.snrLimit
+        self.snr_limit = parent_discovery_metric.snr_limit
 
     def run(self, sso_obs, orb, hval, metric_values):
         if self.i >= len(metric_values["start"]):
-- 
2.43.0


From 592c255be129d2eb0d5a1e7c867e25b9ae5a4db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 097/172] fix: HighVelocityNightsMetric returned times of
 observations it had rejected

The time was that of the first row of the night, even if the object was not
visible or not trailed in it, and the counts per night assumed rows in order
of time.
---
 rubin_sim/maf/metrics/mo_metrics.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 941d215..b6c79f9 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -957,18 +957,14 @@ class HighVelocityNightsMetric(BaseMoMetric):
         if len(high_velocity_obs) == 0:
             return 0
         nights = sso_obs[self.night_col][vis][high_velocity_obs]
-        n = np.unique(nights)
-        n_idx = np.searchsorted(nights, n)
-        # Count the number of observations per night (except last night)
-        obs_per_night = (n_idx - np.roll(n_idx, 1))[1:]
-        # Add the number of observations on the last night.
-        obs_last_night = np.array([len(nights) - n_idx[-1]])
-        obs_per_night = np.concatenate((obs_per_night, obs_last_night))
+        # Count the number of observations per night.
+        n, obs_per_night = np.unique(nights, return_counts=True)
         # Find the nights with at least nObsPerNight visits
         # (this is already looking at only high velocity observations).
         n_with_x_obs = n[np.where(obs_per_night >= self.n_obs_per_night)]
         if len(n_with_x_obs) > 0:
-            found = sso_obs[np.where(sso_obs[self.night_col] == n_with_x_obs[0])][self.mjd_col][0]
+            times = sso_obs[self.mjd_col][vis][high_velocity_obs]
+            found = times[nights == n_with_x_obs[0]].min()
         else:
             found = self.badval
         return found
-- 
2.43.0


From dbd90d946c8f80b7b26aaff720ace2afa7479ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 098/172] fix: MagicDiscoveryMetric used the nights of other
 observations

It sorted the nights of all observations and then applied the indexes of the
visible ones, which refer to the unsorted rows.
---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index b6c79f9..d0ac200 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -864,7 +864,7 @@ class MagicDiscoveryMetric(BaseMoMetric):
         vis = _set_vis(sso_obs, self.snr_limit, self.snr_col, self.vis_col)
         if len(vis) < self.n_obs:
             return self.badval
-        t_nights = np.sort(sso_obs[self.night_col])[vis]
+        t_nights = np.sort(sso_obs[self.night_col][vis])
         u_nights = np.unique(t_nights)
         indx_w = np.searchsorted(t_nights, u_nights, "left")
         indx_p = np.searchsorted(t_nights - self.t_window, u_nights, "left")
-- 
2.43.0


From efbfa219bb116d5b4c7a02974cda5e6ebedda309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 099/172] fix: ActivityOverTimeMetric divided by one window too
 many

The bins are given by their edges, so there is one window less than edges
and an object seen in every window had a fraction below one.
---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index d0ac200..56fb823 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -730,7 +730,7 @@ class ActivityOverTimeMetric(BaseMoMetric):
         self.window = window
         self.survey_years = survey_years
         self.window_bins = np.arange(0, self.survey_years * 365 + self.window / 2.0, self.window)
-        self.n_windows = len(self.window_bins)
+        self.n_windows = len(self.window_bins) - 1
         self.units = "%.1f Day Windows" % (self.window)
 
     def run(self, sso_obs, orb, hval):
-- 
2.43.0


From 42d0274bda40af5f2e7da40ada069d40d4e07d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 100/172] fix: InstantaneousColorMetric paired observations
 that were far apart in time

An observation in the second band before all those in the first gave a
negative time difference and counted as a pair, and the closest observation
of the first band was only looked for before that of the second.
---
 rubin_sim/maf/metrics/mo_metrics.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 56fb823..3959337 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -1322,9 +1322,13 @@ class InstantaneousColorMetric(BaseMoMetric):
             return 0
         d_time = self.n_hours / 24.0
         # Calculate the time between the closest pairs of observations.
-        in_order = np.searchsorted(timesb_one, timesb_two, "right")
-        in_order = np.where(in_order - 1 > 0, in_order - 1, 0)
-        dt_pairs = timesb_two - timesb_one[in_order]
+        timesb_one = np.sort(timesb_one)
+        after = np.searchsorted(timesb_one, timesb_two, "right")
+        before = np.maximum(after - 1, 0)
+        after = np.minimum(after, len(timesb_one) - 1)
+        dt_pairs = np.minimum(
+            np.abs(timesb_two - timesb_one[before]), np.abs(timesb_two - timesb_one[after])
+        )
         if len(np.where(dt_pairs < d_time)[0]) >= self.n_pairs:
             found = 1
         else:
-- 
2.43.0


From 3d0c9b241b7f89cffda1bea8751b47aa1f202c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 101/172] fix: pha_dndh_grav raised an exception

It indexed np.diff instead of calling it.
---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 451d8a1..98c9c8e 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -77,7 +77,7 @@ def pha_dndh_granvik(hvalues, **kwargs):
 
 
 def pha_dndh_grav(hvalues, **kwargs):
-    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff[hvalues][-1])) / 0.1
+    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff(hvalues)[-1])) / 0.1
     y1 = 23.5 * np.power(10, 0.35 * (hvalues - 18.5))
     dndh = y1 * binratio
     return dndh
-- 
2.43.0


From 0d2a0d8ab4dc56be05563052d6d7095f886d8ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 102/172] fix: TotalNumberSSO and ValueAtHMetric could not be
 given a name

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 98c9c8e..4158df3 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -168,7 +168,9 @@ class TotalNumberSSO(BaseMoMetric):
     def __init__(self, h_mark=22, dndh_func=neo_dndh_granvik, **kwargs):
         self.h_mark = h_mark
         self.dndh_func = dndh_func
-        metric_name = "Nobj <= %.1f" % (h_mark)
+        metric_name = kwargs.pop("metric_name", None)
+        if metric_name is None:
+            metric_name = "Nobj <= %.1f" % (h_mark)
         self.kwargs = kwargs
         super().__init__(metric_name=metric_name, **kwargs)
 
@@ -195,7 +197,9 @@ class ValueAtHMetric(BaseMoMetric):
     """
 
     def __init__(self, h_mark=22, **kwargs):
-        metric_name = "Value At H=%.1f" % (h_mark)
+        metric_name = kwargs.pop("metric_name", None)
+        if metric_name is None:
+            metric_name = "Value At H=%.1f" % (h_mark)
         self.units = "<= %.1f" % (h_mark)
         super().__init__(metric_name=metric_name, **kwargs)
         self.h_mark = h_mark
-- 
2.43.0


From a2b69c6fccea0dcbadedfd995f4994ea04a71799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 103/172] fix: MoCompletenessMetric ignored its power law index

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 4158df3..44aebd0 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -356,7 +356,7 @@ class MoCompletenessMetric(BaseMoMetric):
             completeness = n_found.astype(float) / n_all.astype(float)
             completeness = np.where(n_all == 0, 0, completeness)
         if self.cumulative:
-            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, Hindex=self.hindex)
+            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, hindex=self.hindex)
             summary_val = np.empty(len(completeness_int), dtype=[("name", np.str_, 20), ("value", float)])
             summary_val["value"] = completeness_int
             for i, Hval in enumerate(h_vals):
-- 
2.43.0


From 34efb2062bfdcf9668249b364214f6e09f4ced47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:35 +0000
Subject: [PATCH 104/172] fix: MoCompletenessMetric counted metric values
 instead of H values

For objects with an H value each, the values of the metric were binned with
the bins of H, so that almost all completeness values were zero. The bins
also did not reach the faintest objects if the range of H was below
min_hrange.
---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 24 ++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 44aebd0..1572b25 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -342,19 +342,19 @@ class MoCompletenessMetric(BaseMoMetric):
         else:
             # The h_vals are spread more randomly among the objects
             # (we probably used one per object).
-            hrange = h_vals.max() - h_vals.min()
-            min_h = h_vals.min()
-            if hrange < self.min_hrange:
-                hrange = self.min_hrange
-                min_h = h_vals.min() - hrange / 2.0
-            stepsize = hrange / float(self.nbins)
-            bins = np.arange(min_h, min_h + hrange + stepsize / 2.0, stepsize)
+            h_objects = np.asarray(h_vals, float)
+            min_h = h_objects.min()
+            max_h = h_objects.max()
+            if max_h - min_h < self.min_hrange:
+                center = (min_h + max_h) / 2.0
+                min_h = center - self.min_hrange / 2.0
+                max_h = center + self.min_hrange / 2.0
+            bins = np.linspace(min_h, max_h, self.nbins + 1)
             h_vals = bins[:-1]
-            n_all, b = np.histogram(metric_val_h[0], bins)
-            condition = np.where(metric_val_h[0] >= self.threshold)[0]
-            n_found, b = np.histogram(metric_val_h[0][condition], bins)
-            completeness = n_found.astype(float) / n_all.astype(float)
-            completeness = np.where(n_all == 0, 0, completeness)
+            n_all, b = np.histogram(h_objects, bins)
+            condition = np.where(metric_val_h[0].filled(0) >= self.threshold)[0]
+            n_found, b = np.histogram(h_objects[condition], bins)
+            completeness = np.where(n_all == 0, 0, n_found / np.maximum(n_all, 1))
         if self.cumulative:
             completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, hindex=self.hindex)
             summary_val = np.empty(len(completeness_int), dtype=[("name", np.str_, 20), ("value", float)])
-- 
2.43.0


From c0585e1a3bc77ab86306a5194c61aa8585f0e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:35 +0000
Subject: [PATCH 105/172] fix: MoCompletenessAtTimeMetric could not be created
 without an H value

That is the default, but the name of the metric was made with the value.
---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 1572b25..62e425a 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -399,12 +399,13 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
         self.hval = hval
         self.times = times
         self.hindex = hindex
+        at_h = "" if self.hval is None else "@H=%.2f" % self.hval
         if cumulative is None:
             # if metric_name does not start with 'differential',
             # then cumulative->True
             if "metric_name" not in kwargs:
                 self.cumulative = True
-                metric_name = "CumulativeCompleteness@Time@H=%.2f" % self.hval
+                metric_name = "CumulativeCompleteness@Time" + at_h
             else:
                 #  'metric_name' in kwargs:
                 metric_name = kwargs.pop("metric_name")
@@ -421,9 +422,9 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
                     warnings.warn(f"Completeness metric_name is {metric_name} but cumulative is True")
             else:
                 if self.cumulative:
-                    metric_name = "CumulativeCompleteness@Time@H=%.2f" % self.hval
+                    metric_name = "CumulativeCompleteness@Time" + at_h
                 else:
-                    metric_name = "DifferentialCompleteness@Time@H=%.2f" % self.hval
+                    metric_name = "DifferentialCompleteness@Time" + at_h
         self._set_labels()
         super().__init__(metric_name=metric_name, units=self.units, **kwargs)
 
-- 
2.43.0


From 861259c7ab2171f7245f2735c1bcee3dfe201e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:35 +0000
Subject: [PATCH 106/172] fix: MoCompletenessAtTimeMetric ignored its power law
 index

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 62e425a..46d8e90 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -452,7 +452,7 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
         completeness = completeness_h.swapaxes(0, 1)
         if self.cumulative:
             for i, t in enumerate(self.times):
-                completeness[i] = integrate_over_h(completeness[i], h_vals)
+                completeness[i] = integrate_over_h(completeness[i], h_vals, hindex=self.hindex)
         # To save the summary statistic, we must pick out a given H value.
         if self.hval is None:
             hidx = len(h_vals) // 2
-- 
2.43.0


From 07ad8457a71aea1c11f3e44e93cc388f6e5085e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:35 +0000
Subject: [PATCH 107/172] fix: MoMetricBundleGroup ran stackers of bundles it
 was not running

The stackers of all bundles of the group were run for every set of compatible
bundles, so a bundle could get the magnitudes or losses of another one.
---
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 5a51260..310d86f 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -531,7 +531,8 @@ class MoMetricBundleGroup:
         all_stackers = []
         uniq_maps = []
         all_maps = []
-        for b in b_dict.values():
+        for k in compatible_list:
+            b = b_dict[k]
             all_stackers += b.stacker_list
             all_maps += b.maps_list
         for s in all_stackers:
-- 
2.43.0


From 760bef1ebe81d9747092af207e3fef49a95f840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:35 +0000
Subject: [PATCH 108/172] fix: MoMetricBundleGroup raised while reporting a
 failed plot

---
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 310d86f..dfcb938 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -639,7 +639,7 @@ class MoMetricBundleGroup:
                 )
             except ValueError as ve:
                 message = "Plotting failed for metricBundle %s." % (b.file_root)
-                message += " Error message: %s" % (ve.message)
+                message += " Error message: %s" % (ve)
                 warnings.warn(message)
             if closefigs:
                 plt.close("all")
-- 
2.43.0


From 46e31ae7836ec34398484e5f569bd2f51b687f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:07 +0000
Subject: [PATCH 109/172] fix: MoObjSlicer raised for object ids that are
 strings

Current versions of pandas have a type of their own for strings, which is
not object.
---
 rubin_sim/maf/slicers/mo_slicer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/slicers/mo_slicer.py b/rubin_sim/maf/slicers/mo_slicer.py
index 70b367d..06505d7 100644
--- a/rubin_sim/maf/slicers/mo_slicer.py
+++ b/rubin_sim/maf/slicers/mo_slicer.py
@@ -129,10 +129,10 @@ class MoObjSlicer(BaseSlicer):
         # Find the matching orbit.
         orb = self.orbits.iloc[idx]
         # Find the matching observations.
-        if self.obs["obj_id"].dtype == "object":
-            obs = self.obs.query('obj_id == "%s"' % (orb["obj_id"]))
-        else:
+        if pd.api.types.is_numeric_dtype(self.obs["obj_id"].dtype):
             obs = self.obs.query("obj_id == %d" % (orb["obj_id"]))
+        else:
+            obs = self.obs.query('obj_id == "%s"' % (orb["obj_id"]))
         # Return the values for H to consider for metric.
         if self.Hrange is not None:
             Hvals = self.Hrange
-- 
2.43.0


From 63135f33c1a784890f8c5ceb5f8ef9f843e513d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:56 +0000
Subject: [PATCH 110/172] fix: rubin_sim.selfcal could not be imported before
 rubin_sim.maf

---
 rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py b/rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py
index a5cfa54..c4f8cdc 100644
--- a/rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py
+++ b/rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py
@@ -12,8 +12,6 @@ from rubin_scheduler.utils import healbin
 from scipy.stats import median_abs_deviation
 
 from rubin_sim.maf.metrics import BaseMetric
-from rubin_sim.selfcal import LsqrSolver, OffsetSNR, generate_catalog
-from rubin_sim.selfcal.offsets import OffsetSys
 
 
 def _match(arr1, arr2):
@@ -65,6 +63,10 @@ class PhotometricSelfCalUniformityMetric(BaseMetric):
         self.filter_name = filter_name
 
     def run(self, data_slice, slice_point=None):
+        # rubin_sim.selfcal imports rubin_sim.maf, so import it only here.
+        from rubin_sim.selfcal import LsqrSolver, OffsetSNR, generate_catalog
+        from rubin_sim.selfcal.offsets import OffsetSys
+
         offsets = [OffsetSys(error_sys=0.03), OffsetSNR(lsst_filter=self.filter_name)]
 
         visits = np.zeros(
-- 
2.43.0


From c5260b0a5d7a1692219e80b4047e0885e1d76501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:56 +0000
Subject: [PATCH 111/172] fix: NoOffset could not be added to magnitudes

---
 rubin_sim/selfcal/offsets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/offsets.py b/rubin_sim/selfcal/offsets.py
index 3ebc040..feb732d 100644
--- a/rubin_sim/selfcal/offsets.py
+++ b/rubin_sim/selfcal/offsets.py
@@ -24,7 +24,7 @@ class NoOffset(BaseOffset):
         self.newkey = "dmag_zero"
 
     def __call__(self, stars, visits, **kwargs):
-        dmag = np.zeros(stars.size, dtype=list(zip([self.newkey], [float])))
+        dmag = np.zeros(stars.size)
         return dmag
 
 
-- 
2.43.0


From 42c3456ded41a10e146328471d36b58ebb3bf9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:56 +0000
Subject: [PATCH 112/172] fix: generate_catalog divided a field of another
 radius into patches

---
 rubin_sim/selfcal/generate_catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/generate_catalog.py b/rubin_sim/selfcal/generate_catalog.py
index 31cb710..574d40c 100644
--- a/rubin_sim/selfcal/generate_catalog.py
+++ b/rubin_sim/selfcal/generate_catalog.py
@@ -151,7 +151,7 @@ def generate_catalog(
         stars_in = stars_project(stars_in, visit)
 
         # Assign patchIDs
-        stars_in = assign_patches(stars_in, visit, n_patches=n_patches)
+        stars_in = assign_patches(stars_in, visit, n_patches=n_patches, radius_fov=radius_fov)
 
         # Apply the offsets that have been configured
         for offset in offsets:
-- 
2.43.0


From f73c57d88966b3ff8ef1a355f146e1eba9c177c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 113/172] fix: stars on the edge of the field were put in a
 patch of another visit

---
 rubin_sim/selfcal/star_tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/selfcal/star_tools.py b/rubin_sim/selfcal/star_tools.py
index 4b650a5..e646b5f 100644
--- a/rubin_sim/selfcal/star_tools.py
+++ b/rubin_sim/selfcal/star_tools.py
@@ -33,9 +33,10 @@ def assign_patches(stars, visit, n_patches=16, radius_fov=1.8):
     maxx, maxy = gnomonic_project_toxy(0.0, np.radians(radius_fov), 0.0, 0.0)
     nsides = n_patches**0.5
 
-    # This should move all coords to  0 < x < nsides-1
-    px = np.floor((stars["x"] + maxy) / (2.0 * maxy) * nsides)
-    py = np.floor((stars["y"] + maxy) / (2.0 * maxy) * nsides)
+    # This should move all coords to  0 <= x <= nsides-1
+    # (a star on the edge of the field belongs to the outermost patch).
+    px = np.clip(np.floor((stars["x"] + maxy) / (2.0 * maxy) * nsides), 0, nsides - 1)
+    py = np.clip(np.floor((stars["y"] + maxy) / (2.0 * maxy) * nsides), 0, nsides - 1)
 
     stars["sub_patch"] = px + py * nsides
     stars["patch_id"] = stars["sub_patch"] + visit["observationId"] * n_patches
-- 
2.43.0


From 269cb1f0ab00b31e87230f653de25adafb7e885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 114/172] fix: LsqrSolver kept stars observed once when the
 product of id differences wrapped

---
 rubin_sim/selfcal/solver.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/selfcal/solver.py b/rubin_sim/selfcal/solver.py
index 5d770c9..e2409b9 100644
--- a/rubin_sim/selfcal/solver.py
+++ b/rubin_sim/selfcal/solver.py
@@ -57,21 +57,19 @@ class LsqrSolver:
             n_start = self.observations.size
             self.observations.sort(order="id")
             # Remove observations if the star was only observed once
-            good = np.where(
-                (self.observations["id"] - np.roll(self.observations["id"], 1))
-                * (self.observations["id"] - np.roll(self.observations["id"], -1))
-                == 0
+            _, index, counts = np.unique(
+                self.observations["id"], return_inverse=True, return_counts=True
             )
+            good = np.where(counts[index] > 1)
             self.observations = self.observations[good]
 
             # Remove patches with only one star
             self.observations.sort(order="patch_id")
 
-            good = np.where(
-                (self.observations["patch_id"] - np.roll(self.observations["patch_id"], 1))
-                * (self.observations["patch_id"] - np.roll(self.observations["patch_id"], -1))
-                == 0
+            _, index, counts = np.unique(
+                self.observations["patch_id"], return_inverse=True, return_counts=True
             )
+            good = np.where(counts[index] > 1)
             self.observations = self.observations[good]
             n_end = self.observations.size
 
-- 
2.43.0


From d16ad192094cd7259239e5c8e7fdc9959314787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:27 +0000
Subject: [PATCH 115/172] fix: get_sim_data refused every URL of a database

---
 rubin_sim/maf/utils/opsim_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/utils/opsim_utils.py b/rubin_sim/maf/utils/opsim_utils.py
index 8ee17ad..fd200b3 100644
--- a/rubin_sim/maf/utils/opsim_utils.py
+++ b/rubin_sim/maf/utils/opsim_utils.py
@@ -6,7 +6,7 @@ __all__ = (
 
 import os
 import sqlite3
-import urllib
+import urllib.parse
 from contextlib import closing
 
 import numpy as np
@@ -55,12 +55,12 @@ def get_sim_data(
         sqlconstraint = ""
 
     # Check that file exists
-    if isinstance(db_con, str):
+    if isinstance(db_con, str) and urllib.parse.urlparse(db_con).scheme == "":
         if os.path.isfile(db_con) is False:
             raise FileNotFoundError("No file %s" % db_con)
 
     # Check if table is "observations" or "SummaryAllProps"
-    if (table_name is None) & (full_sql_query is None) & (isinstance(db_con, str)):
+    if (table_name is None) and (full_sql_query is None) and isinstance(db_con, str) and os.path.isfile(db_con):
         url = make_url("sqlite:///" + db_con)
         eng = create_engine(url)
         inspector = inspect(eng)
-- 
2.43.0


From b211666107ad1ce13b8422e545a8202b2b9064c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:27 +0000
Subject: [PATCH 116/172] fix: get_sim_data refused SQLAlchemy connectables

---
 rubin_sim/maf/utils/opsim_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/utils/opsim_utils.py b/rubin_sim/maf/utils/opsim_utils.py
index fd200b3..6fa0a21 100644
--- a/rubin_sim/maf/utils/opsim_utils.py
+++ b/rubin_sim/maf/utils/opsim_utils.py
@@ -12,7 +12,7 @@ from contextlib import closing
 import numpy as np
 import pandas as pd
 from sqlalchemy import create_engine, inspect
-from sqlalchemy.engine import make_url
+from sqlalchemy.engine import Connection, Engine, make_url
 
 
 def get_sim_data(
@@ -89,7 +89,7 @@ def get_sim_data(
     else:
         query = full_sql_query
 
-    if isinstance(db_con, sqlite3.Connection):
+    if isinstance(db_con, (sqlite3.Connection, Connection, Engine)):
         sim_data = pd.read_sql(query, db_con).to_records(index=False)
     elif isinstance(db_con, str) and os.path.isfile(db_con):
         with closing(sqlite3.connect(db_con)) as con:
-- 
2.43.0


From 2cebc96818e854a7781d277938ec39b2731db39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:27 +0000
Subject: [PATCH 117/172] fix: combine_result_dbs failed on a directory without
 results, and made a database there

---
 rubin_sim/maf/run_comparison/gather_summaries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/run_comparison/gather_summaries.py b/rubin_sim/maf/run_comparison/gather_summaries.py
index 8a38310..3e43fac 100755
--- a/rubin_sim/maf/run_comparison/gather_summaries.py
+++ b/rubin_sim/maf/run_comparison/gather_summaries.py
@@ -33,6 +33,7 @@ def combine_result_dbs(run_dirs, dbfilename="resultsDb_sqlite.db"):
         fname = os.path.join(rdir, dbfilename)
         if not os.path.isfile(fname):
             logger.warning(f"No resultsDb database in {rdir}")
+            continue
 
         con = sqlite3.connect(fname)
         temp_df = pd.read_sql(sql_q, con)
-- 
2.43.0


From 205b3280076f10e1dedfecf916c1dafaef7f215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:27 +0000
Subject: [PATCH 118/172] fix: combine_result_dbs failed on a database without
 summary statistics

---
 rubin_sim/maf/run_comparison/gather_summaries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/run_comparison/gather_summaries.py b/rubin_sim/maf/run_comparison/gather_summaries.py
index 3e43fac..60b9244 100755
--- a/rubin_sim/maf/run_comparison/gather_summaries.py
+++ b/rubin_sim/maf/run_comparison/gather_summaries.py
@@ -38,6 +38,9 @@ def combine_result_dbs(run_dirs, dbfilename="resultsDb_sqlite.db"):
         con = sqlite3.connect(fname)
         temp_df = pd.read_sql(sql_q, con)
         con.close()
+        if len(temp_df) == 0:
+            logger.warning(f"No summary statistics in {fname}")
+            continue
 
         # Make column names
         def make_summary_name(x):
-- 
2.43.0


From 9b231f09a27abffb07393d9b89cf2dab11ef1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:38 +0000
Subject: [PATCH 119/172] fix: the hash of visits with text columns depended on
 memory addresses

---
 rubin_sim/sim_archive/vseqmetadata.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index f2af9de..712c020 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -47,7 +47,15 @@ psycopg2.extras.register_uuid()
 def compute_visits_sha256(visits: pd.DataFrame) -> bytes:
     recs = visits.to_records()
     visitseq_hash = hashlib.sha256(str(recs.dtype).encode())
-    visitseq_hash.update(np.ascontiguousarray(recs).data.tobytes())
+    for name in recs.dtype.names:
+        values = recs[name]
+        if values.dtype.hasobject:
+            # The buffer of an array of objects holds their addresses,
+            # which differ each time, so use the values themselves.
+            for value in values:
+                visitseq_hash.update(repr(value).encode() + b"\0")
+        else:
+            visitseq_hash.update(np.ascontiguousarray(values).tobytes())
     visitseq_sha256 = bytes.fromhex(visitseq_hash.hexdigest())
     return visitseq_sha256
 
-- 
2.43.0


From a427a1bf4cb111bed9a7844e5fab9a4c198d3358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:38 +0000
Subject: [PATCH 120/172] fix: AnomalousOverheadFunc refused the observations
 sim_runner passes when slews scatter

---
 rubin_sim/sim_archive/prenight.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/prenight.py b/rubin_sim/sim_archive/prenight.py
index 0b0dbb8..296cc57 100644
--- a/rubin_sim/sim_archive/prenight.py
+++ b/rubin_sim/sim_archive/prenight.py
@@ -194,9 +194,8 @@ class AnomalousOverheadFunc:
                     "The visittime argument is deprecated and unused", DeprecationWarning, stacklevel=2
                 )
             else:
-                assert isinstance(obs, Mapping)
-                assert isinstance(obs["slewtime"], float)
-                slewtime = obs["slewtime"]
+                assert isinstance(obs, (Mapping, np.ndarray))
+                slewtime = float(np.asarray(obs["slewtime"]).item())
 
             slew_overhead_offset = slewtime * self.rng.normal(self.slew_loc, self.slew_scale)
             # Slew might be faster than expected,
-- 
2.43.0


From 93951ac2616c134828736eefe78c49d185494237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:38 +0000
Subject: [PATCH 121/172] fix: make_sim_data_dir left one simulation's metadata
 in the dict of the caller

---
 rubin_sim/sim_archive/sim_archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 7f4d632..7b13220 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -149,8 +149,8 @@ def make_sim_data_dir(
         assert isinstance(evening_local_iso, str)
         return evening_local_iso
 
-    if opsim_metadata is None:
-        opsim_metadata = {}
+    # Work on a copy, to leave what the caller supplied unchanged.
+    opsim_metadata = {} if opsim_metadata is None else dict(opsim_metadata)
 
     opsim_metadata["scheduler_version"] = rubin_scheduler.__version__
     opsim_metadata["host"] = socket.getfqdn()
-- 
2.43.0


From 7f25b9e07730ca4a87a07af487035b62ec7114b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:38 +0000
Subject: [PATCH 122/172] fix: make_sim_data_dir dated the end of a simulation
 that ends in the morning a night early

---
 rubin_sim/sim_archive/sim_archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 7b13220..2ec22b2 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -162,7 +162,7 @@ def make_sim_data_dir(
 
         if "sim_duration" in sim_runner_kwargs:
             simulation_dates["last"] = convert_mjd_to_dayobs(
-                sim_runner_kwargs["sim_start_mjd"] + sim_runner_kwargs["sim_duration"] - 1
+                sim_runner_kwargs["sim_start_mjd"] + np.ceil(sim_runner_kwargs["sim_duration"]) - 1
             )
     else:
         simulation_dates["first"] = convert_mjd_to_dayobs(observations["mjd"].min())
-- 
2.43.0


From 99565b83c001607c4005dad267db8166ea61d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:38 +0000
Subject: [PATCH 123/172] fix: make_sim_data_dir dropped rewards supplied
 without the other table

---
 rubin_sim/sim_archive/sim_archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 2ec22b2..c2a2b3f 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -112,7 +112,7 @@ def make_sim_data_dir(
     SchemaConverter().obs2opsim(observations, filename=opsim_output_fname)
 
     # Save the rewards
-    if reward_df is not None and obs_rewards is not None:
+    if reward_df is not None or obs_rewards is not None:
         files["rewards"] = {"name": "rewards.h5"}
         rewards_fname = data_path.joinpath(files["rewards"]["name"])
         if reward_df is not None:
-- 
2.43.0


From c70b50b74f7fc0186bd79cf4e97b56be159d9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:38 +0000
Subject: [PATCH 124/172] fix: drive_sim raised after every simulation

---
 rubin_sim/sim_archive/sim_archive.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index c2a2b3f..7a401bf 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -20,7 +20,7 @@ import socket
 from datetime import date, datetime, timedelta
 from numbers import Integral, Number
 from pathlib import Path
-from tempfile import TemporaryDirectory
+from tempfile import TemporaryDirectory, mkdtemp
 from typing import Any, Optional, Sequence, cast
 from zoneinfo import ZoneInfo
 
@@ -307,7 +307,8 @@ def drive_sim(
         reward_df = sim_results[3] if scheduler.keep_rewards else None
         obs_rewards = sim_results[4] if scheduler.keep_rewards else None
 
-        data_dir = make_sim_data_dir(
+        # The directory has to outlast this function, which returns its path.
+        data_path = make_sim_data_dir(
             observations,
             reward_df=reward_df,
             obs_rewards=obs_rewards,
@@ -316,9 +317,10 @@ def drive_sim(
             tags=tags,
             label=label,
             opsim_metadata=opsim_metadata,
+            data_path=mkdtemp(),
         )
 
-        resource_path = ResourcePath(data_dir.name, forceDirctory=True)  # type: ignore
+        resource_path = ResourcePath(str(data_path), forceDirectory=True)
 
     results = sim_results + (resource_path,)
     return results
-- 
2.43.0


From 2d7765000247bd87a6bbfdedc502858f7f7f48e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:38 +0000
Subject: [PATCH 125/172] fix: the latest prototype simulation was an older one
 with a larger index

---
 rubin_sim/sim_archive/prototype.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index e1b19d0..c08d225 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -802,9 +802,7 @@ def find_latest_prenight_sim_for_nights(
         if not set(tags).issubset(sim["tags"]):
             continue
         if best_sim is not None:
-            if sim["exec_date"] < best_sim["exec_date"]:
-                continue
-            if sim["date_index"] < best_sim["date_index"]:
+            if (sim["exec_date"], sim["date_index"]) < (best_sim["exec_date"], best_sim["date_index"]):
                 continue
         best_sim = sim
 
-- 
2.43.0


From 6b9597c4ef129e3db2aa57a17d9a45b42921fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:38 +0000
Subject: [PATCH 126/172] fix: the search of the prototype archive failed on a
 simulation without tags

---
 rubin_sim/sim_archive/prototype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index c08d225..38de668 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -799,7 +799,7 @@ def find_latest_prenight_sim_for_nights(
             continue
         if "telescope" in sim and sim["telescope"].lower() != telescope.lower():
             continue
-        if not set(tags).issubset(sim["tags"]):
+        if not set(tags).issubset(sim.get("tags", [])):
             continue
         if best_sim is not None:
             if (sim["exec_date"], sim["date_index"]) < (best_sim["exec_date"], best_sim["date_index"]):
-- 
2.43.0


From a2dfa6370e76f7f0d0cec2d0e031f41c3d2ef5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:38 +0000
Subject: [PATCH 127/172] fix: fetching a prototype simulation added a stacker
 to the caller's arguments

---
 rubin_sim/sim_archive/prototype.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index 38de668..b2a5fec 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -883,9 +883,10 @@ def fetch_sim_for_nights(
         get_sim_data_kwargs = {}
     assert isinstance(get_sim_data_kwargs, dict)
 
-    # Limit visits returned to the nights we requested
-    if "stackers" not in get_sim_data_kwargs:
-        get_sim_data_kwargs["stackers"] = []
+    # Limit visits returned to the nights we requested,
+    # without changing the arguments of the caller.
+    get_sim_data_kwargs = dict(get_sim_data_kwargs)
+    get_sim_data_kwargs["stackers"] = list(get_sim_data_kwargs.get("stackers", []))
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in get_sim_data_kwargs["stackers"]]
     if not dayobsiso_requested:
         # We want it to filter out dates that were not requested,
-- 
2.43.0


From 6cba82be3718407d45361d4ad7b190c8494c2828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:06 +0000
Subject: [PATCH 128/172] fix: a scheduler configuration with get_scheduler()
 alone could not be loaded

A module without the name raises AttributeError, not NameError, so the
fallback to get_scheduler() was never reached.
---
 rubin_sim/sim_archive/make_snapshot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/make_snapshot.py b/rubin_sim/sim_archive/make_snapshot.py
index 2630c67..605d05a 100644
--- a/rubin_sim/sim_archive/make_snapshot.py
+++ b/rubin_sim/sim_archive/make_snapshot.py
@@ -66,7 +66,7 @@ def get_scheduler_from_config(config_script_path: str | Path) -> typing.Tuple[in
     try:
         scheduler: CoreScheduler = config_module.scheduler
         nside: int = scheduler.nside
-    except NameError:
+    except (AttributeError, NameError):
         nside, scheduler = config_module.get_scheduler()
         assert isinstance(nside, int)
         assert isinstance(scheduler, CoreScheduler)
-- 
2.43.0


From a7d129db502bc1746f6f9fb937fd5aa4b52e17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:47 +0000
Subject: [PATCH 129/172] fix: an archive in which no simulation has tags or
 arguments could not be compiled

---
 rubin_sim/sim_archive/prototype.py | 42 +++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index b2a5fec..0768461 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -475,17 +475,20 @@ def compile_sim_metadata(
                     sim_row[key] = value
         sim_rows.append(sim_row)
 
-    sim_df = pd.DataFrame(sim_rows).set_index("sim_uri")
-    file_df = pd.DataFrame(file_rows).set_index("sim_uri")
-    sim_runner_kwargs_df = pd.DataFrame(sim_runner_kwargs).set_index("sim_uri")
-    tags_df = pd.DataFrame(tags).set_index("sim_uri")
+    tables = {
+        "simulations": sim_rows,
+        "files": file_rows,
+        "kwargs": sim_runner_kwargs,
+        "tags": tags,
+    }
 
     with TemporaryDirectory() as local_data_dir:
         local_hdf_fname = Path(local_data_dir).joinpath("scheduler.pickle.xz")
-        sim_df.to_hdf(local_hdf_fname, key="simulations", format="table")
-        file_df.to_hdf(local_hdf_fname, key="files", format="table")
-        sim_runner_kwargs_df.to_hdf(local_hdf_fname, key="kwargs", format="table")
-        tags_df.to_hdf(local_hdf_fname, key="tags", format="table")
+        with pd.HDFStore(str(local_hdf_fname), mode="w") as store:
+            for key, rows in tables.items():
+                # There is no table of what no simulation has.
+                if len(rows) > 0:
+                    store.put(key, pd.DataFrame(rows).set_index("sim_uri"), format="table")
 
         with open(local_hdf_fname, "rb") as local_hdf_io:
             hdf_bytes = local_hdf_io.read()
@@ -527,10 +530,16 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
     with compilation_resource.as_local() as local_compilation_resource:
         compilation_fname: str = local_compilation_resource.ospath
         LOGGER.debug(f"{compilation_resource} copied to {compilation_fname}.")
-        sim_df = pd.read_hdf(compilation_fname, "simulations")
-        file_df = pd.read_hdf(compilation_fname, "files")
-        sim_runner_kwargs_df = pd.read_hdf(compilation_fname, "kwargs")
-        tags_df = pd.read_hdf(compilation_fname, "tags")
+        tables = {}
+        with pd.HDFStore(compilation_fname, mode="r") as store:
+            for key in ["simulations", "files", "kwargs", "tags"]:
+                if key in store:
+                    tables[key] = store[key]
+
+    if "simulations" not in tables:
+        return {}
+
+    sim_df = tables["simulations"]
 
     def make_file_dict(g: pd.Series | pd.DataFrame) -> dict:
         if isinstance(g, pd.Series):
@@ -538,7 +547,8 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
 
         return g.set_index("file_type").T.to_dict()
 
-    sim_df["files"] = file_df.groupby("sim_uri").apply(make_file_dict)
+    if "files" in tables:
+        sim_df["files"] = tables["files"].groupby("sim_uri").apply(make_file_dict)
 
     def make_kwargs_dict(g):
         sim_kwargs = g.to_dict(orient="records")[0]
@@ -557,9 +567,11 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
 
         return sim_kwargs
 
-    sim_df["sim_runner_kwargs"] = sim_runner_kwargs_df.groupby("sim_uri").apply(make_kwargs_dict)
+    if "kwargs" in tables:
+        sim_df["sim_runner_kwargs"] = tables["kwargs"].groupby("sim_uri").apply(make_kwargs_dict)
 
-    sim_df["tags"] = tags_df.groupby("sim_uri").agg({"tag": list})
+    if "tags" in tables:
+        sim_df["tags"] = tables["tags"].groupby("sim_uri").agg({"tag": list})
 
     sim_metadata = sim_df.to_dict(orient="index")
 
-- 
2.43.0


From 1cd8b8e28d112ed4cddbf1de7b31a1b57392cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:47 +0000
Subject: [PATCH 130/172] fix: make_sim_archive_cli recorded the path of a file
 as its type

---
 rubin_sim/sim_archive/prototype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index 0768461..5c363cb 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -391,7 +391,7 @@ def make_sim_archive_cli(*args: Any) -> str:
         try:
             filename = getattr(arg_values, filename_arg)
             if filename is not None:
-                in_files[filename] = filename
+                in_files[filename_arg] = filename
         except AttributeError:
             pass
 
-- 
2.43.0


From 916d3bd9d3ebf7cca6f21bf2dbe759cce31258b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 131/172] fix: set_ra_dec_alt_az_mjd refused single points
 given as numpy scalars

---
 rubin_sim/skybrightness/sky_model.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index b0518f5..b2f6ea6 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -345,17 +345,10 @@ class SkyModel:
         if self.mags:
             self.npix = len(self.filter_names)
         # Wrap in array just in case single points were passed
-        if not type(ra).__module__ == np.__name__:
-            if np.size(ra) == 1:
-                ra = np.array([ra]).ravel()
-                dec = np.array([dec]).ravel()
-                alt = np.array(alt).ravel()
-                az = np.array(az).ravel()
-            else:
-                ra = np.array(ra)
-                dec = np.array(dec)
-                alt = np.array(alt)
-                az = np.array(az)
+        ra = np.atleast_1d(ra)
+        dec = np.atleast_1d(dec)
+        alt = np.atleast_1d(alt)
+        az = np.atleast_1d(az)
         if degrees:
             self.ra = np.radians(ra)
             self.dec = np.radians(dec)
-- 
2.43.0


From 6abb551d08bac83c9975cd2e9011bafbdbf52dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 132/172] fix: SkyModel.set_params refused single points, its
 defaults included

---
 rubin_sim/skybrightness/sky_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index b2f6ea6..7cb5318 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -602,6 +602,10 @@ class SkyModel:
         else:
             self.airmass = airmass
             self.alts = np.pi / 2.0 - np.arccos(1.0 / airmass)
+        # Wrap in array just in case a single point was passed
+        self.airmass = np.atleast_1d(self.airmass)
+        self.alts = np.atleast_1d(self.alts)
+        self.azs = np.atleast_1d(self.azs)
         self.moon_targ_sep = haversine(self.azs, self.alts, moon_az, self.moon_alt)
         self.npts = np.size(self.airmass)
         self._init_points()
-- 
2.43.0


From 500f8622b21c6bfabf38fb1943ba4325f45d9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 133/172] fix: SkyModel.set_params took the moon azimuth in
 degrees as radians in moon_targ_sep

---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 7cb5318..00e236b 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -606,7 +606,7 @@ class SkyModel:
         self.airmass = np.atleast_1d(self.airmass)
         self.alts = np.atleast_1d(self.alts)
         self.azs = np.atleast_1d(self.azs)
-        self.moon_targ_sep = haversine(self.azs, self.alts, moon_az, self.moon_alt)
+        self.moon_targ_sep = haversine(self.azs, self.alts, self.moon_az, self.moon_alt)
         self.npts = np.size(self.airmass)
         self._init_points()
 
-- 
2.43.0


From 7a9f188e0f38e7bfe8e465e51b2b08d9cf514a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 134/172] fix: SkyModel.return_mags with bandpasses failed
 after set_params

---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 00e236b..30eb87f 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -756,7 +756,7 @@ class SkyModel:
                 min_wave = bandpasses[key].wavelen[is_through].min()
                 max_wave = bandpasses[key].wavelen[is_through].max()
                 in_band = np.where((self.wave >= min_wave) & (self.wave <= max_wave))
-                for i, ra in enumerate(self.ra):
+                for i in range(self.npts):
                     # Check that there is flux in the band,
                     # otherwise calc_mag fails
                     if np.max(self.spec[i, in_band]) > 0:
-- 
2.43.0


From 1008cff5fd2746fb2266d26a45a6340b8357a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 135/172] fix: SkyModel.set_params with no point in range kept
 the result of the call before

---
 rubin_sim/skybrightness/sky_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 30eb87f..c722036 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -642,6 +642,8 @@ class SkyModel:
             self._interp_sky()
         else:
             warnings.warn("No points in interpolation range")
+            # Do not keep results from earlier parameters
+            self.spec = np.full((self.npts, self.npix), np.nan, dtype=float)
 
     def _interp_sky(self):
         """
-- 
2.43.0


From 5924f18365d4e095a25d575300b6ed5905b38df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 136/172] fix: SkyModel left out components beyond airmass 3
 instead of using airmass 3

---
 rubin_sim/skybrightness/sky_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index c722036..cd9d2d1 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -499,7 +499,8 @@ class SkyModel:
         # Compute airmass the same way as ESO model
         self.airmass = 1.0 / np.cos(np.pi / 2.0 - self.alts)
 
-        self.points["airmass"] = self.airmass
+        # The templates reach airmass 3.0, use that for higher airmass.
+        self.points["airmass"] = np.minimum(self.airmass, 3.0)
         self.points["nightTimes"] = 0
         self.points["alt"] = self.alts
         self.points["az"] = self.azs
@@ -610,7 +611,8 @@ class SkyModel:
         self.npts = np.size(self.airmass)
         self._init_points()
 
-        self.points["airmass"] = self.airmass
+        # The templates reach airmass 3.0, use that for higher airmass.
+        self.points["airmass"] = np.minimum(self.airmass, 3.0)
         self.points["nightTimes"] = 0
         self.points["alt"] = self.alts
         self.points["az"] = self.azs
-- 
2.43.0


From 4a81290c05527fc442339fad51e2a946b24d4272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 137/172] fix: SkyModel zeroed the wrong points when some
 points are over the airmass limit

---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index cd9d2d1..3f27fa0 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -686,7 +686,7 @@ class SkyModel:
                     self.spec[self.mask, :] = np.nan
                     return
                 if np.max(result["spec"]) > 0:
-                    mask[np.where(np.sum(result["spec"], axis=1) == 0)] = 0
+                    mask[self.good_pix[np.where(np.sum(result["spec"], axis=1) == 0)]] = 0
                 self.spec[self.good_pix] += result["spec"]
                 if not hasattr(self, "wave"):
                     self.wave = result["wave"]
-- 
2.43.0


From b63d777aa539bd760aecb62356f5e4b5ef80a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 138/172] fix: sky components extrapolated below their grid
 with the far end of the grid

---
 rubin_sim/skybrightness/interp_components.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/skybrightness/interp_components.py b/rubin_sim/skybrightness/interp_components.py
index 887e9bc..53985f7 100644
--- a/rubin_sim/skybrightness/interp_components.py
+++ b/rubin_sim/skybrightness/interp_components.py
@@ -226,6 +226,7 @@ class BaseSingleInterp:
         # If points off the grid were requested, just use the edge grid point
         off_grid = np.where(indx_r == grid.size)
         indx_r[off_grid] = grid.size - 1
+        indx_l[np.where(indx_l < 0)] = 0
         full_range = grid[indx_r] - grid[indx_l]
 
         w_l = np.zeros(full_range.size, dtype=float)
-- 
2.43.0


From 46ff3c8bdd6383b5ef33f79cdd07dc379ff8b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 139/172] fix: TwilightInterp changed the fit results it was
 given

---
 rubin_sim/skybrightness/interp_components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/interp_components.py b/rubin_sim/skybrightness/interp_components.py
index 53985f7..3882aba 100644
--- a/rubin_sim/skybrightness/interp_components.py
+++ b/rubin_sim/skybrightness/interp_components.py
@@ -479,7 +479,8 @@ class TwilightInterp:
                 2.32325117e-04,
             ]
         else:
-            self.fit_results = fit_results
+            # Copy, the zeropoints are updated below
+            self.fit_results = {key: list(fit_results[key]) for key in fit_results}
 
         # Take out any filters that don't have fit results
         self.filter_names = [key for key in self.filter_names if key in self.fit_results]
-- 
2.43.0


From 183af28ae83b264e1b126d69708c803876ff4c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 140/172] fix: twilight spectra failed with the sun up instead
 of being NaN

---
 rubin_sim/skybrightness/interp_components.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/skybrightness/interp_components.py b/rubin_sim/skybrightness/interp_components.py
index 3882aba..0a1baa3 100644
--- a/rubin_sim/skybrightness/interp_components.py
+++ b/rubin_sim/skybrightness/interp_components.py
@@ -656,15 +656,17 @@ class TwilightInterp:
             & (interp_points["airmass"] >= 1.0)
         )[0]
 
+        # No model with the sun this high
+        out_of_range = np.where(interp_points["sunAlt"] > np.max(limits))[0]
+        if np.size(out_of_range) > 0:
+            result[:] = np.nan
+            return {"spec": result, "wave": self.solar_wave}
+
         # Compute the expected flux in each of the filters that
         # we have fits for
         fluxes = []
         for filter_name in self.filter_names:
-            out_of_range = np.where(interp_points["sunAlt"] > np.max(limits))[0]
-            if np.size(out_of_range) > 0:
-                fluxes.append(np.nan)
-            else:
-                fluxes.append(twilight_func(interp_points[good], *self.fit_results[filter_name]))
+            fluxes.append(twilight_func(interp_points[good], *self.fit_results[filter_name]))
         fluxes = np.array(fluxes)
 
         # ratio of model flux to raw solar flux:
-- 
2.43.0


From ef4166b9da622a90659116caa02c9a265bc4d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:59 +0000
Subject: [PATCH 141/172] fix: check_pointings failed when a single satellite
 was up for a single visit

---
 rubin_sim/satellite_constellations/sat_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/satellite_constellations/sat_utils.py b/rubin_sim/satellite_constellations/sat_utils.py
index 84df331..4cc80c3 100644
--- a/rubin_sim/satellite_constellations/sat_utils.py
+++ b/rubin_sim/satellite_constellations/sat_utils.py
@@ -424,7 +424,8 @@ class Constellation:
             pointing_decs_rad[above_illum_indx],
         )
 
-        close = np.where(distances < test_radius_rad)[0]
+        # A single distance comes back as a scalar
+        close = np.where(np.atleast_1d(distances) < test_radius_rad)[0]
 
         # Numpy broadcasting is such a dark art
         sat_indx = np.arange(len(self.sat_list), dtype=int)[np.newaxis]
-- 
2.43.0


From 1f8e96dd007c58bb1f430df8735d473a914f667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:59 +0000
Subject: [PATCH 142/172] fix: check_pointings failed for visits not longer
 than the timestep

---
 rubin_sim/satellite_constellations/sat_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/satellite_constellations/sat_utils.py b/rubin_sim/satellite_constellations/sat_utils.py
index 4cc80c3..03228ab 100644
--- a/rubin_sim/satellite_constellations/sat_utils.py
+++ b/rubin_sim/satellite_constellations/sat_utils.py
@@ -444,7 +444,7 @@ class Constellation:
             visit_broad,
             sat_indx[above_illum_indx][close],
         ):
-            mjd = np.linspace(mjd, mjd + vt, num=np.round(vt / dt).astype(int))
+            mjd = np.linspace(mjd, mjd + vt, num=max(2, np.round(vt / dt).astype(int)))
             jd = mjd + MJDOFFSET
             t = self.ts.ut1_jd(jd)
             sat = self.sat_list[sat_in]
-- 
2.43.0


From e960e6d09b46c590f72ac26ce13a3dc5fae7391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:59 +0000
Subject: [PATCH 143/172] fix: the satellite ModelObservatory ignored nside

---
 rubin_sim/satellite_constellations/model_observatory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/satellite_constellations/model_observatory.py b/rubin_sim/satellite_constellations/model_observatory.py
index 43186f9..ec85a10 100644
--- a/rubin_sim/satellite_constellations/model_observatory.py
+++ b/rubin_sim/satellite_constellations/model_observatory.py
@@ -77,7 +77,7 @@ class ModelObservatory(oMO):
 
         # Run the rest of the regular __init__ steps
         super().__init__(
-            nside=None,
+            nside=nside,
             mjd_start=self.mjd_start,
             seed=seed,
             alt_min=alt_min,
-- 
2.43.0


From 3ac751c786f454cf8a50a2b7e64541c46e40bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:04 +0000
Subject: [PATCH 144/172] fix: ebv_3d_hp returned the first map it had read
 whatever map file was asked for

---
 rubin_sim/maf/maps/ebv_3d_hp.py | 41 +++++++++++++++------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/rubin_sim/maf/maps/ebv_3d_hp.py b/rubin_sim/maf/maps/ebv_3d_hp.py
index ba0dfaf..a4fa0c8 100644
--- a/rubin_sim/maf/maps/ebv_3d_hp.py
+++ b/rubin_sim/maf/maps/ebv_3d_hp.py
@@ -68,15 +68,8 @@ def ebv_3d_hp(
             test_path = os.path.join(get_data_dir(), "maps/DustMaps3D", map_file)
             if os.path.isfile(test_path):
                 map_file = test_path
-    # Keep track of what nside and what map_file we're using
-    if not hasattr(ebv_3d_hp, "map_file"):
-        ebv_3d_hp.mapFile = map_file
-        ebv_3d_hp.nside = nside
-
     # Do we need to re-read from disk?
-    if (not hasattr(ebv_3d_hp, "ebvs")) | (not hasattr(ebv_3d_hp, "dists")) | (map_file != ebv_3d_hp.mapFile):
-        ebv_3d_hp.mapFile = map_file
-        ebv_3d_hp.nside = nside
+    if getattr(ebv_3d_hp, "map_file", None) != map_file:
         # Read map from disk
         hdul = fits.open(map_file)
         # hpids = hdul[0].data
@@ -89,20 +82,6 @@ def ebv_3d_hp(
         # Check additional healpix information from the header
         map_nside = hdr["NSIDE"]
         nested = hdr["NESTED"]
-        if nside != map_nside:
-            warnings.warn(
-                f"Map nside {map_nside} did not match expected nside {nside}; "
-                f"Will use nside from map data."
-            )
-            if pixels is not None:
-                # We're just going to raise an exception here
-                # because this could mean bad things.
-                raise ValueError(
-                    f"Map nside {map_nside} did not match expected nside {nside}, "
-                    f"and pixels provided; this can potentially indicate a serious "
-                    f"error. Make nsides match or specify ra/dec instead of pixels."
-                )
-            nside = map_nside
         # Nested healpix data will not match the healpix arrays
         # for the slicers (at this time)
         if nested:
@@ -112,8 +91,26 @@ def ebv_3d_hp(
                 ebvs[:, i] = hp.reorder(ebvs[:, i], "nest", "ring")
         ebv_3d_hp.dists = dists
         ebv_3d_hp.ebvs = ebvs
+        # Keep track of what map_file (and nside) we're using
+        ebv_3d_hp.nside = map_nside
+        ebv_3d_hp.map_file = map_file
         print(f"Read map {map_file} from disk")
 
+    if nside != ebv_3d_hp.nside:
+        warnings.warn(
+            f"Map nside {ebv_3d_hp.nside} did not match expected nside {nside}; "
+            f"Will use nside from map data."
+        )
+        if pixels is not None:
+            # We're just going to raise an exception here
+            # because this could mean bad things.
+            raise ValueError(
+                f"Map nside {ebv_3d_hp.nside} did not match expected nside {nside}, "
+                f"and pixels provided; this can potentially indicate a serious "
+                f"error. Make nsides match or specify ra/dec instead of pixels."
+            )
+        nside = ebv_3d_hp.nside
+
     if pixels is not None:
         # Assume if pixels is set, then interp is irrelevant
         dists = ebv_3d_hp.dists[pixels]
-- 
2.43.0


From abb494a051c1b3280f3bf46a2a43785fbfe6d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:04 +0000
Subject: [PATCH 145/172] fix: ebv_3d_hp could not interpolate at a single
 position

---
 rubin_sim/maf/maps/ebv_3d_hp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/maps/ebv_3d_hp.py b/rubin_sim/maf/maps/ebv_3d_hp.py
index a4fa0c8..e2eeb40 100644
--- a/rubin_sim/maf/maps/ebv_3d_hp.py
+++ b/rubin_sim/maf/maps/ebv_3d_hp.py
@@ -119,11 +119,11 @@ def ebv_3d_hp(
     else:
         if interp:  # find interpolated values at given ra/dec
             distlen = len(ebv_3d_hp.dists[0])
-            dists = np.zeros([len(ra), distlen], float)
-            ebvs = np.zeros([len(ra), distlen], float)
+            dists = np.zeros(np.shape(ra) + (distlen,), float)
+            ebvs = np.zeros(np.shape(ra) + (distlen,), float)
             for i in np.arange(0, distlen):
-                dists[:, i] = hp.get_interp_val(ebv_3d_hp.dists[:, i], np.pi / 2.0 - dec, ra)
-                ebvs[:, i] = hp.get_interp_val(ebv_3d_hp.ebvs[:, i], np.pi / 2.0 - dec, ra)
+                dists[..., i] = hp.get_interp_val(ebv_3d_hp.dists[:, i], np.pi / 2.0 - dec, ra)
+                ebvs[..., i] = hp.get_interp_val(ebv_3d_hp.ebvs[:, i], np.pi / 2.0 - dec, ra)
         else:  # just fine nearest neighbor pixel value and return those
             pixels = radec2pix(nside, ra, dec)
             dists = ebv_3d_hp.dists[pixels]
-- 
2.43.0


From 4e2cd66af06e4e4820c754dfe030743d1b0d3c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:04 +0000
Subject: [PATCH 146/172] fix: get_x_at_nearest_y returned a scalar for a map
 with one point

---
 rubin_sim/maf/maps/ebv_3d_hp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/maps/ebv_3d_hp.py b/rubin_sim/maf/maps/ebv_3d_hp.py
index e2eeb40..9ecb5fd 100644
--- a/rubin_sim/maf/maps/ebv_3d_hp.py
+++ b/rubin_sim/maf/maps/ebv_3d_hp.py
@@ -158,8 +158,8 @@ def get_x_at_nearest_y(x, y, x_goal):
     if x.ndim == 2:
         idx_min = np.argmin(np.abs(x - x_goal), axis=1)
         i_expand = np.expand_dims(idx_min, axis=-1)
-        x_closest = np.take_along_axis(x, i_expand, axis=-1).squeeze()
-        y_closest = np.take_along_axis(y, i_expand, axis=-1).squeeze()
+        x_closest = np.take_along_axis(x, i_expand, axis=-1).squeeze(axis=-1)
+        y_closest = np.take_along_axis(y, i_expand, axis=-1).squeeze(axis=-1)
     else:
         idx_min = np.argmin(np.abs(x - x_goal))
         x_closest = x[idx_min]
-- 
2.43.0


From 8badafa84e0d1cad167226033447b6b120e0f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:04 +0000
Subject: [PATCH 147/172] fix: galplane_priority_map ignored map_path and
 use_alt_maps once any map was read

---
 rubin_sim/maf/maps/galactic_plane_priority_maps.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/maps/galactic_plane_priority_maps.py b/rubin_sim/maf/maps/galactic_plane_priority_maps.py
index fa32a39..34fabdd 100644
--- a/rubin_sim/maf/maps/galactic_plane_priority_maps.py
+++ b/rubin_sim/maf/maps/galactic_plane_priority_maps.py
@@ -94,13 +94,14 @@ def galplane_priority_map(
         raise RuntimeError("Currently only available with nside=64")
 
     # Do we need to read from disk?
-    if not hasattr(galplane_priority_map, "maps"):
+    if map_path is not None:
+        data_dir = map_path
+    else:
+        data_dir = os.path.join(get_data_dir(), "maps", "GalacticPlanePriorityMaps")
+    if getattr(galplane_priority_map, "source", None) != (data_dir, use_alt_maps):
+        galplane_priority_map.source = None
         galplane_priority_map.nside = 64
         galplane_priority_map.filterlist = ["u", "g", "r", "i", "z", "y", "sum"]
-        if map_path is not None:
-            data_dir = map_path
-        else:
-            data_dir = os.path.join(get_data_dir(), "maps", "GalacticPlanePriorityMaps")
         galplane_priority_map.maps = {}
         science_maps = []
         for f in galplane_priority_map.filterlist:
@@ -115,6 +116,7 @@ def galplane_priority_map(
                 science_maps += list(galplane_priority_map.maps[f].dtype.names)
             science_maps = list(set(science_maps))
             galplane_priority_map.science_maps = science_maps
+        galplane_priority_map.source = (data_dir, use_alt_maps)
 
     galplane_priority_map.keys = [
         gp_priority_map_components_to_keys(f, s)
-- 
2.43.0


From 327327873bb899c5061dcf865cc3cc03bb135d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:04 +0000
Subject: [PATCH 148/172] fix: GalacticPlanePriorityMap looked for its maps in
 the default place only

---
 rubin_sim/maf/maps/galactic_plane_priority_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maps/galactic_plane_priority_maps.py b/rubin_sim/maf/maps/galactic_plane_priority_maps.py
index 34fabdd..3a93937 100644
--- a/rubin_sim/maf/maps/galactic_plane_priority_maps.py
+++ b/rubin_sim/maf/maps/galactic_plane_priority_maps.py
@@ -175,7 +175,7 @@ class GalacticPlanePriorityMap(BaseMap):
     """
 
     def __init__(self, interp=False, nside=64, map_path=None):
-        self.keynames = galplane_priority_map(get_keys=True)
+        self.keynames = galplane_priority_map(get_keys=True, map_path=map_path)
         self.interp = interp
         self.nside = nside
         self.map_path = map_path
-- 
2.43.0


From 8fec520b557b12411c942190674ad9be90f1f2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:19 +0000
Subject: [PATCH 149/172] fix: metrics which need different versions of a map
 all got the first one when run together

---
 rubin_sim/maf/maps/base_map.py                      |  8 ++++++--
 rubin_sim/maf/metric_bundles/metric_bundle.py       |  2 +-
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 13 ++++++++-----
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/maps/base_map.py b/rubin_sim/maf/maps/base_map.py
index deea892..1fac8f2 100644
--- a/rubin_sim/maf/maps/base_map.py
+++ b/rubin_sim/maf/maps/base_map.py
@@ -47,10 +47,14 @@ class BaseMap(metaclass=MapsRegistry):
         self.keynames = ["newkey"]
 
     def __eq__(self, othermap):
-        return self.keynames == othermap.keynames
+        # Maps are the same if they are set up with the same arguments
+        if type(self) is not type(othermap) or self.keynames != othermap.keynames:
+            return False
+        args = list(inspect.signature(type(self)).parameters)
+        return all(getattr(self, arg, None) == getattr(othermap, arg, None) for arg in args)
 
     def __ne__(self, othermap):
-        return self.keynames != othermap.keynames
+        return not self == othermap
 
     def __lt__(self, othermap):
         return self.keynames < othermap.keynames
diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 210bc84..217e4f8 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -176,7 +176,7 @@ class MetricBundle:
                         self.maps_list.append(temp_map)
                         map_names.append(map_needed)
                 else:
-                    if map_needed not in self.maps_list:
+                    if map_needed.keynames not in [m.keynames for m in self.maps_list]:
                         self.maps_list.append(map_needed)
                         map_names.append(map_needed.__class__.__name__)
 
diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index b088e03..d89d28c 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -155,9 +155,9 @@ class MetricBundleGroup:
 
         Notes
         -----
-        Compatible indicates that the sql constraints, the slicers,
-        and the maps are the same, and
-        that the stackers do not interfere with each other
+        Compatible indicates that the sql constraints and the slicers
+        are the same, and
+        that the maps and the stackers do not interfere with each other
         (i.e. are not trying to set the same column in different ways).
         Returns True if the MetricBundles are compatible, False if not.
         """
@@ -165,8 +165,11 @@ class MetricBundleGroup:
             return False
         if metric_bundle1.slicer != metric_bundle2.slicer:
             return False
-        if metric_bundle1.maps_list.sort() != metric_bundle2.maps_list.sort():
-            return False
+        for map1 in metric_bundle1.maps_list:
+            for map2 in metric_bundle2.maps_list:
+                # Different maps cannot add the same key to the slice points
+                if map1 != map2 and set(map1.keynames) & set(map2.keynames):
+                    return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
                 # If the stackers have different names, that's OK,
-- 
2.43.0


From 703d32329968b3c6384ec7845b10e1e63b627076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:36 +0000
Subject: [PATCH 150/172] fix: star map bins were split between slice points
 when there are as many bins as points

---
 rubin_sim/maf/maps/stellar_density_map.py | 6 +++++-
 rubin_sim/maf/maps/trilegal_map.py        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/maps/stellar_density_map.py b/rubin_sim/maf/maps/stellar_density_map.py
index d2f4c4a..15781ac 100644
--- a/rubin_sim/maf/maps/stellar_density_map.py
+++ b/rubin_sim/maf/maps/stellar_density_map.py
@@ -69,5 +69,9 @@ class StellarDensityMap(BaseMap):
             indx = radec2pix(self.starmap_nside, slice_points["ra"], slice_points["dec"])
             slice_points[f"starLumFunc_{self.filtername}"] = self.star_map[indx, :]
 
-        slice_points[f"starMapBins_{self.filtername}"] = self.star_map_bins
+        bins = self.star_map_bins
+        if np.size(bins) == np.size(slice_points["ra"]):
+            # Slicers would take these for one value per slice point
+            bins = np.tile(bins, (np.size(bins), 1))
+        slice_points[f"starMapBins_{self.filtername}"] = bins
         return slice_points
diff --git a/rubin_sim/maf/maps/trilegal_map.py b/rubin_sim/maf/maps/trilegal_map.py
index b6bf47c..f39e7f6 100644
--- a/rubin_sim/maf/maps/trilegal_map.py
+++ b/rubin_sim/maf/maps/trilegal_map.py
@@ -78,5 +78,9 @@ class TrilegalDensityMap(BaseMap):
         dist, indices = self.tree.query(list(zip(x, y, z)))
 
         slice_points["starLumFunc_%s" % self.filtername] = self.star_map[indices, :]
-        slice_points["starMapBins_%s" % self.filtername] = self.star_map_bins
+        bins = self.star_map_bins
+        if np.size(bins) == np.size(slice_points["ra"]):
+            # Slicers would take these for one value per slice point
+            bins = np.tile(bins, (np.size(bins), 1))
+        slice_points["starMapBins_%s" % self.filtername] = bins
         return slice_points
-- 
2.43.0


From 61e4ac9566d4871b370acf5ceea017f8a31340b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:45 +0000
Subject: [PATCH 151/172] fix: radar_limited batch passed an argument which its
 metric does not take

---
 rubin_sim/maf/batches/radar_limited.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/batches/radar_limited.py b/rubin_sim/maf/batches/radar_limited.py
index 4014085..08784f4 100644
--- a/rubin_sim/maf/batches/radar_limited.py
+++ b/rubin_sim/maf/batches/radar_limited.py
@@ -532,7 +532,7 @@ def radar_limited(
         sqlconstraint += " and scheduler_note not like 'DD%'"
         info_label = f"{bandpass} band non-DD year {yr_cut}"
         ThreebyTwoSummary_simple = metrics.StaticProbesFoMEmulatorMetricSimple(
-            nside=nside, year=yr_cut, metric_name="3x2ptFoM_simple"
+            year=yr_cut, metric_name="3x2ptFoM_simple"
         )
         ThreebyTwoSummary = maf.StaticProbesFoMEmulatorMetric(nside=nside, metric_name="3x2ptFoM")
 
-- 
2.43.0


From 1cd00aafe85175bfceb177b6107c9d10a0ebe507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:45 +0000
Subject: [PATCH 152/172] fix: astrometryBatch y band constraint used the
 physical filter and leaked an 'or' in the extra constraint

---
 rubin_sim/maf/batches/srd_batch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/batches/srd_batch.py b/rubin_sim/maf/batches/srd_batch.py
index e1a7e34..6187338 100644
--- a/rubin_sim/maf/batches/srd_batch.py
+++ b/rubin_sim/maf/batches/srd_batch.py
@@ -362,9 +362,9 @@ def astrometryBatch(
     else:
         yinfo = f"{info_label} y band only"
     if len(sql) == 0:
-        ysql = "filter == 'y'"
+        ysql = f"{band_col} == 'y'"
     else:
-        ysql = f"{sql} and filter == 'y'"
+        ysql = f"({sql}) and {band_col} == 'y'"
     plotDict = {"x_min": 0, "x_max": 15, "color_min": 0, "color_max": 15}
     metric = metrics.ParallaxMetric(
         metric_name="Parallax Uncert @ %.1f" % (ymag),
-- 
2.43.0


From a16acd5c947612875c13d43d67a83622601520d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:45 +0000
Subject: [PATCH 153/172] fix: intraNight subsets of bands used the physical
 filter and leaked an 'or' in the extra constraint

---
 rubin_sim/maf/batches/time_batch.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/batches/time_batch.py b/rubin_sim/maf/batches/time_batch.py
index 6ca391f..216c4ac 100644
--- a/rubin_sim/maf/batches/time_batch.py
+++ b/rubin_sim/maf/batches/time_batch.py
@@ -213,17 +213,18 @@ def intraNight(
         )
         bundleList.append(bundle)
     # subsets of adjacent filters
+    band_col = colmap["filter"]
     filtersubsets = {
-        "ug": "(filter = 'u' or filter = 'g')",
-        "gr": "(filter = 'g' or filter = 'r')",
-        "ri": "(filter = 'r' or filter = 'i')",
-        "iz": "(filter = 'i' or filter = 'z')",
-        "zy": "(filter = 'z' or filter = 'y')",
+        "ug": f"({band_col} = 'u' or {band_col} = 'g')",
+        "gr": f"({band_col} = 'g' or {band_col} = 'r')",
+        "ri": f"({band_col} = 'r' or {band_col} = 'i')",
+        "iz": f"({band_col} = 'i' or {band_col} = 'z')",
+        "zy": f"({band_col} = 'z' or {band_col} = 'y')",
     }
     sqls = [extraSql]
     if extraSql is not None and len(extraSql) > 0:
         for fi in filtersubsets:
-            sqls.append(f"{extraSql} and {filtersubsets[fi]}")
+            sqls.append(f"({extraSql}) and {filtersubsets[fi]}")
     else:
         for fi in filtersubsets:
             sqls.append(f"{filtersubsets[fi]}")
-- 
2.43.0


From 1f9fee3532b4e56c32575492d5d5a1adbe108bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:45 +0000
Subject: [PATCH 154/172] fix: radar batches selected bands by the physical
 filter column

---
 rubin_sim/maf/batches/radar_limited.py       | 8 ++++----
 rubin_sim/maf/batches/science_radar_batch.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/batches/radar_limited.py b/rubin_sim/maf/batches/radar_limited.py
index 08784f4..b4689a6 100644
--- a/rubin_sim/maf/batches/radar_limited.py
+++ b/rubin_sim/maf/batches/radar_limited.py
@@ -479,7 +479,7 @@ def radar_limited(
     for filtername in "ugrizy":
         displayDict["caption"] = "Surface brightness limit in %s, no extinction applied." % filtername
         displayDict["order"] = filterorders[f]
-        sql = "filter='%s'" % filtername
+        sql = "band='%s'" % filtername
         metric = metrics.SurfaceBrightLimitMetric()
         bundle = mb.MetricBundle(
             metric,
@@ -581,7 +581,7 @@ def radar_limited(
     subgroupCount += 1
     displayDict["subgroup"] = f"{subgroupCount}: WL"
     displayDict["order"] = 0
-    sqlconstraint = "scheduler_note not like 'DD%' and (filter='g' or filter='r' or filter='i')"
+    sqlconstraint = "scheduler_note not like 'DD%' and (band='g' or band='r' or band='i')"
     info_label = "gri band non-DD"
     minExpTime = 15
     m = metrics.WeakLensingNvisits(
@@ -613,7 +613,7 @@ def radar_limited(
     for year in [10]:
         sqlconstraint = (
             "scheduler_note not like 'DD%'"
-            + " and (filter='g' or filter='r' or filter='i') and night < %i" % (year * 365.25)
+            + " and (band='g' or band='r' or band='i') and night < %i" % (year * 365.25)
         )
         m = metrics.WeakLensingNvisits(
             lsst_filter=bandpass,
@@ -649,7 +649,7 @@ def radar_limited(
 
         sqlconstraint = (
             "scheduler_note not like 'DD%'"
-            + " and (filter='r' or filter='i' or filter='z') and night < %i" % (year * 365.25)
+            + " and (band='r' or band='i' or band='z') and night < %i" % (year * 365.25)
         )
         m = metrics.WeakLensingNvisits(
             lsst_filter=bandpass,
diff --git a/rubin_sim/maf/batches/science_radar_batch.py b/rubin_sim/maf/batches/science_radar_batch.py
index 3256c22..4d53498 100644
--- a/rubin_sim/maf/batches/science_radar_batch.py
+++ b/rubin_sim/maf/batches/science_radar_batch.py
@@ -1746,7 +1746,7 @@ def science_radar_batch(
     i_starMap = maf.maps.StellarDensityMap(filtername="i")
     lv_slicer = maf.maf_contrib.generate_known_lv_dwarf_slicer()
     lv_metric = maf.maf_contrib.LVDwarfsMetric()
-    sqlconstraint = "(filter = 'i' OR filter = 'g')"
+    sqlconstraint = "(band = 'i' OR band = 'g')"
     info_label = "gi"
     cutoff = -6.4
     summary_metrics = [
@@ -1793,7 +1793,7 @@ def science_radar_batch(
         "star-galaxy separation), over the southern celestial pole,"
         "to a distance of 0.1 Mpc."
     )
-    sqlconstraint = "(filter = 'i' OR filter = 'g') and fieldDec < -60"
+    sqlconstraint = "(band = 'i' OR band = 'g') and fieldDec < -60"
     info_label = "gi SCP"
     lv_metric3 = maf.maf_contrib.LVDwarfsMetric(distlim=0.1 * u.Mpc)  # for a distance limit, healpix map
     summary_area = maf.metrics.AreaThresholdMetric(lower_threshold=0.0, metric_name="Area M_v>0.0")
-- 
2.43.0


From 071bbe027fa2cbcfa79011d66761f6a44f2bdca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:45 +0000
Subject: [PATCH 155/172] fix: metric names without the column lost other
 characters

---
 rubin_sim/maf/batches/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/batches/common.py b/rubin_sim/maf/batches/common.py
index e942d87..08b0ad5 100644
--- a/rubin_sim/maf/batches/common.py
+++ b/rubin_sim/maf/batches/common.py
@@ -175,7 +175,7 @@ def standard_metrics(colname, replace_colname=None):
             if len(replace_colname) > 0:
                 m.name = m.name.replace("%s" % colname, "%s" % replace_colname)
             else:
-                m.name = m.name.rstrip(" %s" % colname)
+                m.name = m.name.replace("%s" % colname, "").strip()
     return standardMetrics
 
 
@@ -213,7 +213,7 @@ def extended_metrics(colname, replace_colname=None):
             if len(replace_colname) > 0:
                 m.name = m.name.replace("%s" % colname, "%s" % replace_colname)
             else:
-                m.name = m.name.rstrip(" %s" % colname)
+                m.name = m.name.replace("%s" % colname, "").strip()
     return extendedMetrics
 
 
@@ -248,7 +248,7 @@ def standard_angle_metrics(colname, replace_colname=None):
             if len(replace_colname) > 0:
                 m.name = m.name.replace("%s" % colname, "%s" % replace_colname)
             else:
-                m.name = m.name.rstrip(" %s" % colname)
+                m.name = m.name.replace("%s" % colname, "").strip()
     return standardAngleMetrics
 
 
-- 
2.43.0


From 3a2eee13763964b9e9bbd880bce47b6ee0eaff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:45 +0000
Subject: [PATCH 156/172] fix: empty extra constraint made invalid sql in
 eastWestBias and firstYearMetadata

---
 rubin_sim/maf/batches/metadata_batch.py | 2 +-
 rubin_sim/maf/batches/skycoverage.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/batches/metadata_batch.py b/rubin_sim/maf/batches/metadata_batch.py
index 7383868..df3c3c5 100644
--- a/rubin_sim/maf/batches/metadata_batch.py
+++ b/rubin_sim/maf/batches/metadata_batch.py
@@ -532,7 +532,7 @@ def firstYearMetadata(colmap=None, runName="opsim", extraSql=None, extraInfoLabe
     bdict = {}
 
     firstYr = "night < 365.5"
-    if extraSql is not None:
+    if extraSql is not None and len(extraSql) > 0:
         extraSql = f"({firstYr}) and ({extraSql})"
     else:
         extraSql = firstYr
diff --git a/rubin_sim/maf/batches/skycoverage.py b/rubin_sim/maf/batches/skycoverage.py
index b4ef00a..eb30ca8 100644
--- a/rubin_sim/maf/batches/skycoverage.py
+++ b/rubin_sim/maf/batches/skycoverage.py
@@ -117,7 +117,7 @@ def eastWestBias(colmap=None, runName="opsim", extraSql=None, extraInfoLabel=Non
     metric = metrics.CountMetric(colmap["night"], metric_name="Nvisits East")
     slicer = slicers.OneDSlicer(slice_col_name=colmap["night"], bin_size=1)
     sql = "%s <= %f" % (colmap["az"], eastvswest)
-    if extraSql is not None:
+    if extraSql is not None and len(extraSql) > 0:
         sql = "(%s) and (%s)" % (sql, extraSql)
     plotDict = {"color": "orange", "label": "East"}
     bundle = mb.MetricBundle(
@@ -136,7 +136,7 @@ def eastWestBias(colmap=None, runName="opsim", extraSql=None, extraInfoLabel=Non
     metric = metrics.CountMetric(colmap["night"], metric_name="Nvisits West")
     slicer = slicers.OneDSlicer(slice_col_name=colmap["night"], bin_size=1)
     sql = "%s > %f" % (colmap["az"], eastvswest)
-    if extraSql is not None:
+    if extraSql is not None and len(extraSql) > 0:
         sql = "(%s) and (%s)" % (sql, extraSql)
     plotDict = {"color": "blue", "label": "West"}
     bundle = mb.MetricBundle(
-- 
2.43.0


From 778213ffecc9ac07be6a1a95a0cd150691a1705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:45 +0000
Subject: [PATCH 157/172] fix: nvisitsPerSubset raised when a constraint was
 given without a label

---
 rubin_sim/maf/batches/visitdepth_batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/batches/visitdepth_batch.py b/rubin_sim/maf/batches/visitdepth_batch.py
index 28a2ebd..0ccc672 100644
--- a/rubin_sim/maf/batches/visitdepth_batch.py
+++ b/rubin_sim/maf/batches/visitdepth_batch.py
@@ -417,7 +417,7 @@ def nvisitsPerSubset(
 
     if footprintConstraint is None:
         if extraInfoLabel is None and constraint is not None:
-            extraInfoLabel += " %s" % constraint
+            extraInfoLabel = "%s" % constraint
         # Nvisits per night, this constraint.
         bdict.update(
             nvisitsPerNight(
-- 
2.43.0


From 85098e3507277231cce26a68eb278d94abdacef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:25 +0000
Subject: [PATCH 158/172] fix: glanceBatch applied the constraint to some of
 the metrics only

---
 rubin_sim/maf/batches/glance_batch.py | 41 ++++++++++++++++-----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/rubin_sim/maf/batches/glance_batch.py b/rubin_sim/maf/batches/glance_batch.py
index 5a6fbc0..653f9d5 100644
--- a/rubin_sim/maf/batches/glance_batch.py
+++ b/rubin_sim/maf/batches/glance_batch.py
@@ -64,11 +64,19 @@ def glanceBatch(
 
     bundle_list = []
 
-    if sql_constraint is None:
+    if sql_constraint is None or len(sql_constraint) == 0:
         sqlC = ""
     else:
         sqlC = "(%s) and" % sql_constraint
 
+    def add_constraint(sql):
+        # The constraint given by the user applies to all metrics.
+        if len(sqlC) == 0:
+            return sql
+        if len(sql) == 0:
+            return sql_constraint
+        return "%s (%s)" % (sqlC, sql)
+
     if slicer_camera == "LSST":
         spatial_slicer = slicers.HealpixSlicer
     elif slicer_camera == "ComCam":
@@ -144,7 +152,7 @@ def glanceBatch(
         bundle_list.append(bundle)
 
     # alt az of long gaps
-    sql = "scheduler_note = 'long'"
+    sql = add_constraint("scheduler_note = 'long'")
     metric = metrics.CountMetric(colmap["mjd"], metric_name="Nvisits long")
     bundle = metric_bundles.MetricBundle(
         metric,
@@ -156,7 +164,7 @@ def glanceBatch(
     )
     bundle_list.append(bundle)
 
-    sql = "scheduler_note like 'blob_long%'"
+    sql = add_constraint("scheduler_note like 'blob_long%'")
     metric = metrics.CountMetric(colmap["mjd"], metric_name="Nvisits blob long")
     bundle = metric_bundles.MetricBundle(
         metric,
@@ -168,7 +176,7 @@ def glanceBatch(
     )
     bundle_list.append(bundle)
 
-    sql = "scheduler_note like '%neo%' or scheduler_note like '%near_sun%'"
+    sql = add_constraint("scheduler_note like '%neo%' or scheduler_note like '%near_sun%'")
     metric = metrics.CountMetric(colmap["mjd"], metric_name="Nvisits twilight near sun")
     bundle = metric_bundles.MetricBundle(
         metric,
@@ -182,7 +190,7 @@ def glanceBatch(
 
     # alt,az pf ToO
 
-    sql = "scheduler_note like 'ToO%'"
+    sql = add_constraint("scheduler_note like 'ToO%'")
     metric = metrics.CountMetric(colmap["mjd"], metric_name="Nvisits long")
     bundle = metric_bundles.MetricBundle(
         metric,
@@ -269,7 +277,7 @@ def glanceBatch(
         bundle = metric_bundles.MetricBundle(
             metric,
             slicer,
-            sql,
+            add_constraint(sql),
             summary_metrics=extended_stats,
             plot_dict=plotDict,
             display_dict=displayDict,
@@ -277,7 +285,7 @@ def glanceBatch(
         bundle_list.append(bundle)
 
     # Make a cumulative plot of a WFD spot
-    sql = "scheduler_note not like '%NEO%' and scheduler_note not like '%near_sun%'"
+    sql = add_constraint("scheduler_note not like '%NEO%' and scheduler_note not like '%near_sun%'")
     uslicer = slicers.UserPointsSlicer(ra=0, dec=-20)
     metric = metrics.CumulativeMetric()
     metricb = metric_bundles.MetricBundle(
@@ -368,7 +376,7 @@ def glanceBatch(
         metric = metrics.StringCountMetric(
             col=colmap["scheduler_note_root"], percent=True, metric_name="Percents", clip_end=False
         )
-        sql = ""
+        sql = add_constraint("")
         slicer = slicers.UniSlicer()
         bundle = metric_bundles.MetricBundle(metric, slicer, sql, display_dict=displayDict)
         bundle_list.append(bundle)
@@ -385,7 +393,7 @@ def glanceBatch(
         metric = metrics.StringCountMetric(
             col=colmap["scheduler_note_root"], percent=True, metric_name="Percents", clip_end=False
         )
-        sql = (
+        sql = add_constraint(
             "scheduler_note like 'pair%%' or scheduler_note like 'twilight%%' or scheduler_note like 'blob%%'"
         )
         slicer = slicers.UniSlicer()
@@ -404,7 +412,7 @@ def glanceBatch(
     displayDict["subgroup"] = ""
     for ddf in ddf_surveys:
         label = ddf.replace("DD:", "")
-        sql = f"scheduler_note like 'DD:{label}%'"
+        sql = add_constraint(f"scheduler_note like 'DD:{label}%'")
         slicer = slicers.UniSlicer()
         metric = metrics.CumulativeMetric()
         metricb = metric_bundles.MetricBundle(
@@ -422,7 +430,7 @@ def glanceBatch(
     displayDict = {}
     displayDict["group"] = "Basic Stats"
     displayDict["subgroup"] = "Saturation"
-    sql = ""
+    sql = add_constraint("")
     metric = metrics.SkySaturationMetric()
     summary = metrics.SumMetric()
     slicer = slicers.UniSlicer()
@@ -495,7 +503,7 @@ def glanceBatch(
     bundle = metric_bundles.MetricBundle(
         metric,
         slicer,
-        "",
+        add_constraint(""),
         plot_dict=plotDict,
         display_dict=displayDict,
         summary_metrics=summaryMetrics,
@@ -512,7 +520,7 @@ def glanceBatch(
     sky = EuclidOverlapFootprint(nside=nside_foot, smc_radius=4, lmc_radius=6)
     footprints_hp_array, labels = sky.return_maps()
     for filtername in filternames:
-        sql = "band='%s' and night < 365" % filtername
+        sql = add_constraint("band='%s' and night < 365" % filtername)
         metric = metrics.CountMetric(col="night", metric_name="N year 1")
         summary_stat = metrics.FootprintFractionMetric(
             footprint=footprints_hp_array[filtername],
@@ -538,7 +546,7 @@ def glanceBatch(
         lat_lon_deg=colmap["raDecDeg"],
     )
     for filtername in filternames:
-        sql = "band='%s' and scheduler_note like 'ToO%%'" % filtername
+        sql = add_constraint("band='%s' and scheduler_note like 'ToO%%'" % filtername)
         metric = metrics.CountMetric(col=colmap["mjd"], metric_name="N ToO")
         bundle = metric_bundles.MetricBundle(
             metric,
@@ -555,7 +563,8 @@ def glanceBatch(
         "scheduler_note like 'ToO, %'"
     ]
     slicer = slicers.UniSlicer()
-    for sql in too_sqls:
+    for too_sql in too_sqls:
+        sql = add_constraint(too_sql)
         metric = metrics.CountMetric(col="night")
         bundle = metric_bundles.MetricBundle(
             metric,
@@ -585,7 +594,7 @@ def glanceBatch(
 
     # Add basic slew stats.
     try:
-        slewDict = slewBasics(colmap=colmap, run_name=run_name)
+        slewDict = slewBasics(colmap=colmap, run_name=run_name, sql_constraint=sql_constraint)
         bd.update(slewDict)
     except KeyError as e:
         warnings.warn("Could not add slew stats: missing required key %s from colmap" % (e))
-- 
2.43.0


From c3c0eea246a8423ea643ebb57b2f849c4a9bd4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:44 +0000
Subject: [PATCH 159/172] fix: riz bundles of the radar batches were labelled
 gri

---
 rubin_sim/maf/batches/radar_limited.py       | 2 ++
 rubin_sim/maf/batches/science_radar_batch.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/rubin_sim/maf/batches/radar_limited.py b/rubin_sim/maf/batches/radar_limited.py
index b4689a6..19dc03f 100644
--- a/rubin_sim/maf/batches/radar_limited.py
+++ b/rubin_sim/maf/batches/radar_limited.py
@@ -611,6 +611,7 @@ def radar_limited(
 
     # Do the weak lensing per year
     for year in [10]:
+        info_label = "gri band non-DD"
         sqlconstraint = (
             "scheduler_note not like 'DD%'"
             + " and (band='g' or band='r' or band='i') and night < %i" % (year * 365.25)
@@ -647,6 +648,7 @@ def radar_limited(
         )
         bundleList.append(bundle)
 
+        info_label = "riz band non-DD"
         sqlconstraint = (
             "scheduler_note not like 'DD%'"
             + " and (band='r' or band='i' or band='z') and night < %i" % (year * 365.25)
diff --git a/rubin_sim/maf/batches/science_radar_batch.py b/rubin_sim/maf/batches/science_radar_batch.py
index 4d53498..e399f7a 100644
--- a/rubin_sim/maf/batches/science_radar_batch.py
+++ b/rubin_sim/maf/batches/science_radar_batch.py
@@ -683,6 +683,7 @@ def science_radar_batch(
     # Do the weak lensing per year
     for year in np.arange(1, 10):
         displayDict["order"] = year
+        info_label = "gri band non-DD"
         sqlconstraint = (
             "scheduler_note not like 'DD%'"
             + " and (band='g' or band='r' or band='i') and night < %i" % (year * 365.25)
@@ -719,6 +720,7 @@ def science_radar_batch(
         )
         bundleList.append(bundle)
 
+        info_label = "riz band non-DD"
         sqlconstraint = (
             "scheduler_note not like 'DD%'"
             + " and (band='r' or band='i' or band='z') and night < %i" % (year * 365.25)
-- 
2.43.0


From 560785325274f9feb11da57d0659a86ce00cb527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:22 +0000
Subject: [PATCH 160/172] fix: ddfBatch ignored the extra constraint in some
 bundles and leaked an 'or' in others

---
 rubin_sim/maf/batches/ddf_batch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/batches/ddf_batch.py b/rubin_sim/maf/batches/ddf_batch.py
index 7152446..ea99271 100644
--- a/rubin_sim/maf/batches/ddf_batch.py
+++ b/rubin_sim/maf/batches/ddf_batch.py
@@ -160,7 +160,7 @@ def ddfBatch(
             maf.MetricBundle(
                 metric,
                 ddf_slicers_sne[ddf],
-                constraint="",
+                constraint=sqls["all"],
                 info_label=" ".join([fieldname, "all bands, only DDF observations"]),
                 plot_dict=plotDict,
                 plot_funcs=plotFuncs,
@@ -206,7 +206,7 @@ def ddfBatch(
             maf.MetricBundle(
                 metric,
                 slicer,
-                "",
+                sqls["all"],
                 info_label=" ".join([fieldname]),
                 summary_metrics=lightcurve_summary(),
                 display_dict=displayDict,
@@ -223,6 +223,8 @@ def ddfBatch(
             "gri": f"{band_col}='g' or {band_col}='r' or {band_col}='i'",
             "riz": f"{band_col}='r' or {band_col}='i' or {band_col}='z'",
         }
+        if len(sqls["all"]) > 0:
+            sqls_gri = {f: f"({sqls['all']}) and ({sqls_gri[f]})" for f in sqls_gri}
 
         for sql in sqls_gri:
             metrics = [
@@ -262,6 +264,8 @@ def ddfBatch(
             "gri": f"{band_col}='g' or {band_col}='r' or {band_col}='i'",
             "riz": f"{band_col}='r' or {band_col}='i' or {band_col}='z'",
         }
+        if len(sqls["all"]) > 0:
+            sqls_gri = {f: f"({sqls['all']}) and ({sqls_gri[f]})" for f in sqls_gri}
 
         for sql in sqls_gri:
             metric = maf.WeakLensingNvisits(
@@ -502,7 +506,7 @@ def ddfBatch(
             fieldsql = f"scheduler_note like '%{fieldname}%'"
             for f in filterlist:
                 if len(sqls[f]) > 0:
-                    fieldsqls[f] = fieldsql + " and " + sqls[f]
+                    fieldsqls[f] = f"{fieldsql} and ({sqls[f]})"
                 else:
                     fieldsqls[f] = fieldsql
 
-- 
2.43.0


From 2765e5605a670d4d00dff361131c2f8e3320bddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:57 +0000
Subject: [PATCH 161/172] fix: combine_subsets joins the values and masks of
 the subsets

---
 rubin_sim/maf/batches/moving_objects_batch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/batches/moving_objects_batch.py b/rubin_sim/maf/batches/moving_objects_batch.py
index 26909d2..5c5fef9 100644
--- a/rubin_sim/maf/batches/moving_objects_batch.py
+++ b/rubin_sim/maf/batches/moving_objects_batch.py
@@ -1574,14 +1574,15 @@ def combine_subsets(mbSubsets):
     # Don't just use the slicer shape to define the metric_values,
     # because of CompletenessBundles.
     metric_values = np.zeros(first.metric_values.shape, float)
-    metric_values_mask = np.zeros(first.metric_values.shape, bool)
+    # A value is masked only if it is masked in all of the subsets.
+    metric_values_mask = np.ones(first.metric_values.shape, bool)
     for i in mbSubsets:
         metric_values += mbSubsets[i].metric_values.filled(0)
         metric_values_mask = np.where(metric_values_mask & mbSubsets[i].metric_values.mask, True, False)
-    joint.metricValues = ma.MaskedArray(data=metric_values, mask=metric_values_mask, fill_value=0)
+    joint.metric_values = ma.MaskedArray(data=metric_values, mask=metric_values_mask, fill_value=0)
     joint.info_label = first.info_label
     joint.run_name = first.run_name
     joint.file_root = first.file_root.replace(".npz", "")
-    joint.plotDict = first.plotDict
+    joint.plot_dict = first.plot_dict
     joint.display_dict = first.display_dict
     return joint
-- 
2.43.0


From 44f4c98e557726caaec8c234298d4e056e46c75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:15 +0000
Subject: [PATCH 162/172] fix: combine_subsets refuses subsets of different
 objects or H values

---
 rubin_sim/maf/batches/moving_objects_batch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/batches/moving_objects_batch.py b/rubin_sim/maf/batches/moving_objects_batch.py
index 5c5fef9..5222c77 100644
--- a/rubin_sim/maf/batches/moving_objects_batch.py
+++ b/rubin_sim/maf/batches/moving_objects_batch.py
@@ -1565,9 +1565,12 @@ def combine_subsets(mbSubsets):
     # Check if they're the same slicer.
     slicer = deepcopy(first.slicer)
     for i in mbSubsets:
-        if np.any(slicer.slice_points["H"] != mbSubsets[i].slicer.slice_points["H"]):
-            if np.any(slicer.slice_points["orbits"] != mbSubsets[i].slicer.slice_points["orbits"]):
-                raise ValueError("Bundle %s has a different slicer than the first bundle" % (i))
+        slice_points = mbSubsets[i].slicer.slice_points
+        if not (
+            np.array_equal(slicer.slice_points["H"], slice_points["H"])
+            and np.array_equal(slicer.slice_points["orbits"]["obj_id"], slice_points["orbits"]["obj_id"])
+        ):
+            raise ValueError("Bundle %s has a different slicer than the first bundle" % (i))
     # Join metric values.
     joint.slicer = slicer
     joint.metric = first.metric
-- 
2.43.0


From 30242ccff25326fd11d3e0f10625040cbbd7cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:15 +0000
Subject: [PATCH 163/172] fix: combine_subsets keeps the constraint of the
 subsets

---
 rubin_sim/maf/batches/moving_objects_batch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/batches/moving_objects_batch.py b/rubin_sim/maf/batches/moving_objects_batch.py
index 5222c77..887cd50 100644
--- a/rubin_sim/maf/batches/moving_objects_batch.py
+++ b/rubin_sim/maf/batches/moving_objects_batch.py
@@ -1583,6 +1583,7 @@ def combine_subsets(mbSubsets):
         metric_values += mbSubsets[i].metric_values.filled(0)
         metric_values_mask = np.where(metric_values_mask & mbSubsets[i].metric_values.mask, True, False)
     joint.metric_values = ma.MaskedArray(data=metric_values, mask=metric_values_mask, fill_value=0)
+    joint.constraint = first.constraint
     joint.info_label = first.info_label
     joint.run_name = first.run_name
     joint.file_root = first.file_root.replace(".npz", "")
-- 
2.43.0


From aecf8c48746038968075fa69f54d5d1f3d3f9344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:15 +0000
Subject: [PATCH 164/172] fix: run_fraction_summary finds h_mark for each
 bundle

---
 rubin_sim/maf/batches/moving_objects_batch.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/batches/moving_objects_batch.py b/rubin_sim/maf/batches/moving_objects_batch.py
index 887cd50..d3075bc 100644
--- a/rubin_sim/maf/batches/moving_objects_batch.py
+++ b/rubin_sim/maf/batches/moving_objects_batch.py
@@ -1334,26 +1334,27 @@ def run_fraction_summary(bdict, h_mark, out_dir, results_db):
 
     for b, bundle in bdict.items():
         # Find h_mark if not set (this may be different for different bundles).
-        if h_mark is None and "h_mark" in bundle.plot_dict:
-            h_mark = bundle.plot_dict["h_mark"] - 2
-        if h_mark is None:
-            h_mark = np.median(bundle.slicer.slice_points["H"]) - 2
+        hval = h_mark
+        if hval is None and bundle.plot_dict.get("h_mark") is not None:
+            hval = bundle.plot_dict["h_mark"] - 2
+        if hval is None:
+            hval = np.median(bundle.slicer.slice_points["H"]) - 2
         # Make sure we didn't push h_mark outside the range of H values
-        if h_mark < bundle.slicer.slice_points["H"].min():
-            h_mark = bundle.slicer.slice_points["H"].min()
+        if hval < bundle.slicer.slice_points["H"].min():
+            hval = bundle.slicer.slice_points["H"].min()
         for k in asteroidSummaryMetrics:
             if k in b:
                 for summary_metric in asteroidSummaryMetrics[k]:
                     newkey = b + " " + summary_metric.name
                     fractions[newkey] = mb.make_completeness_bundle(
-                        bundle, summary_metric, h_mark=h_mark, results_db=results_db
+                        bundle, summary_metric, h_mark=hval, results_db=results_db
                     )
         for k in outerSummaryMetrics:
             if k in b:
                 for summary_metric in outerSummaryMetrics[k]:
                     newkey = b + " " + summary_metric.name
                     fractions[newkey] = mb.make_completeness_bundle(
-                        bundle, summary_metric, h_mark=h_mark, results_db=results_db
+                        bundle, summary_metric, h_mark=hval, results_db=results_db
                     )
 
     # Write fractional populations bundles to disk, so we can re-read later.
-- 
2.43.0


From f72ece2058aa4aa046cd209b3aa4799a857728d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:46 +0000
Subject: [PATCH 165/172] fix: run_moving_calc runs without the optional
 simulation_db

---
 rubin_sim/maf/run_moving_calc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/run_moving_calc.py b/rubin_sim/maf/run_moving_calc.py
index a3c354b..3f212e8 100755
--- a/rubin_sim/maf/run_moving_calc.py
+++ b/rubin_sim/maf/run_moving_calc.py
@@ -107,7 +107,10 @@ def run_moving_calc():
     )
     args = parser.parse_args()
 
-    run_name = os.path.split(args.simulation_db)[-1].replace(".db", "")
+    if args.simulation_db is not None:
+        run_name = os.path.split(args.simulation_db)[-1].replace(".db", "")
+    else:
+        run_name = "run_name"
 
     if args.orbit_file is None or args.obs_file is None:
         print("Must specify an orbit_file and an obs_file to calculate the metrics.")
-- 
2.43.0


From 699df9cc96bb5dff0b5788b013bed9879377b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:50 +0000
Subject: [PATCH 166/172] fix: make_lsst_obs does not add out_dir to the output
 file twice

---
 rubin_sim/moving_objects/make_lsst_obs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/make_lsst_obs.py b/rubin_sim/moving_objects/make_lsst_obs.py
index 8943417..cd5e12f 100755
--- a/rubin_sim/moving_objects/make_lsst_obs.py
+++ b/rubin_sim/moving_objects/make_lsst_obs.py
@@ -273,8 +273,9 @@ def make_lsst_obs():
         object_mjds=object_mjds,
     )
 
+    # The output_file includes out_dir already (see setup_args).
     np.savez(
-        os.path.join(args.out_dir, args.output_file),
+        args.output_file,
         object_observations=object_observations,
         info=d_obs.info,
     )
-- 
2.43.0


From 33dcdf4f4af9abc6596335d29235e49529235ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:50 +0000
Subject: [PATCH 167/172] fix: split commands of generate_ss do not use an
 argument run_moving_calc refuses

---
 rubin_sim/maf/generate_ss.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/maf/generate_ss.py b/rubin_sim/maf/generate_ss.py
index 5adeda3..f8c26d4 100755
--- a/rubin_sim/maf/generate_ss.py
+++ b/rubin_sim/maf/generate_ss.py
@@ -155,7 +155,6 @@ def generate_ss_commands(
                                 f"run_moving_calc --obs_file {out_dir}/{run}__{split}_obs.npz"
                                 f" --simulation_db {filename} --orbit_file {orbit_files[pop]}"
                                 f" --out_dir {out_dir}/{split}"
-                                f" --run_name {run}"
                                 f" --objtype {objtype}"
                                 f" --start_time {mjd_starts[filename]}"
                             )
-- 
2.43.0


From 4fcd81ea16bcbf5565f1e2b91af13f54397fe193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:50 +0000
Subject: [PATCH 168/172] fix: generate_ss_commands keeps runs and database
 files together

---
 rubin_sim/maf/generate_ss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/generate_ss.py b/rubin_sim/maf/generate_ss.py
index f8c26d4..773d8db 100755
--- a/rubin_sim/maf/generate_ss.py
+++ b/rubin_sim/maf/generate_ss.py
@@ -20,6 +20,8 @@ def generate_ss_commands(
     if dbfiles is None:
         dbfiles = glob.glob("*.db")
         dbfiles.sort()
+    # Tracking and results databases are not simulations.
+    dbfiles = [f for f in dbfiles if not os.path.basename(f).startswith(("trackingDb", "resultsDb"))]
 
     data_dir = os.path.join(get_data_dir(), "orbits")
     orbit_files = {
@@ -77,7 +79,6 @@ def generate_ss_commands(
         pops = [pops]
 
     runs = [os.path.split(file)[-1].replace(".db", "") for file in dbfiles]
-    runs = [run for run in runs if "tracking" not in run]
 
     # Find mjd_start for each run:
     mjd_starts = {}
-- 
2.43.0


From 40cda572a8b24af2c5d0eb05ef9a351e6a8bb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:50 +0000
Subject: [PATCH 169/172] fix: night report selects visits by band

---
 rubin_sim/maf/maf_night_report.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/maf_night_report.py b/rubin_sim/maf/maf_night_report.py
index 6395798..ae2c01d 100755
--- a/rubin_sim/maf/maf_night_report.py
+++ b/rubin_sim/maf/maf_night_report.py
@@ -36,7 +36,7 @@ def make_bundle_list(
     azCol = "azimuth"
     # Construct sql queries for each filter and all filters
     filters = ["u", "g", "r", "i", "z", "y"]
-    sqls = ["night=%i and filter='%s'" % (night, f) for f in filters]
+    sqls = ["night=%i and band='%s'" % (night, f) for f in filters]
     sqls.append("night=%i" % night)
 
     bundleList = []
@@ -85,7 +85,7 @@ def make_bundle_list(
 
     # Moon phase.
 
-    metric = metrics.NChangesMetric(col="filter", metric_name="Filter Changes")
+    metric = metrics.NChangesMetric(col="band", metric_name="Filter Changes")
     bundle = metricBundles.MetricBundle(metric, unislicer, "night=%i" % night)
     bundleList.append(bundle)
 
@@ -107,12 +107,12 @@ def make_bundle_list(
 
     # Make plots of the solar system pairs that were taken in the night
     metric = metrics.PairMetric(mjd_col=mjdCol)
-    sql = "night=%i and (filter ='r' or filter='g' or filter='i')" % night
+    sql = "night=%i and (band ='r' or band='g' or band='i')" % night
     bundle = metricBundles.MetricBundle(metric, reg_slicer, sql)
     bundleList.append(bundle)
 
     metric = metrics.PairMetric(mjd_col=mjdCol, metric_name="z Pairs")
-    sql = "night=%i and filter='z'" % night
+    sql = "night=%i and band='z'" % night
     bundle = metricBundles.MetricBundle(metric, reg_slicer, sql)
     bundleList.append(bundle)
 
-- 
2.43.0


From 26f59b3d0c33d7bc27611fa7dae095604e05f3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:50 +0000
Subject: [PATCH 170/172] fix: run_selfcal_metric selects visits by band

---
 rubin_sim/maf/run_selfcal_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/run_selfcal_metric.py b/rubin_sim/maf/run_selfcal_metric.py
index 4eecf2e..a55246b 100755
--- a/rubin_sim/maf/run_selfcal_metric.py
+++ b/rubin_sim/maf/run_selfcal_metric.py
@@ -53,7 +53,7 @@ def run_selfcal_metric():
     sql = "scheduler_note not like '%DD%'"
     # And run on only year 1 (?)
     sql += " and night < 366"
-    sql += " and filter='%s'" % args.filter
+    sql += " and band='%s'" % args.filter
 
     bundle = MetricBundle(
         selfcal_metric, slicer, sql, run_name=sim_name, info_label="year 1 no-DD %s" % args.filter
-- 
2.43.0


From 63a096ae1a10cfca5585d6f8c631c5a88505d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:57 +0000
Subject: [PATCH 171/172] fix: split commands of generate_ss do not use the
 positions of other objects

---
 rubin_sim/maf/generate_ss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/generate_ss.py b/rubin_sim/maf/generate_ss.py
index 773d8db..0cc60d1 100755
--- a/rubin_sim/maf/generate_ss.py
+++ b/rubin_sim/maf/generate_ss.py
@@ -147,9 +147,10 @@ def generate_ss_commands(
                         split = os.path.split(splitfile)[-1]
                         split = split.replace(".des", "").replace(".s3m", "").replace(".txt", "")
                         with open(outfile_split, "a") as wi:
+                            # The positions_file is for the complete orbit file
+                            # so cannot be used with the split orbit files.
                             s1 = (
                                 f"make_lsst_obs --simulation_db {filename} --orbit_file {splitfile}"
-                                f" --positions_file {position_files[pop]}"
                                 f" --out_dir {out_dir}"
                             )
                             s2 = (
-- 
2.43.0


From 139f01dae12fa2f5ad48a43620e90a2f0646c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 172/172] fix: selfcal defers its import of maf, so that maf
 can import selfcal at the top

---
 rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py | 6 ++----
 rubin_sim/selfcal/offsets.py                           | 5 +++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py b/rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py
index c4f8cdc..a5cfa54 100644
--- a/rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py
+++ b/rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py
@@ -12,6 +12,8 @@ from rubin_scheduler.utils import healbin
 from scipy.stats import median_abs_deviation
 
 from rubin_sim.maf.metrics import BaseMetric
+from rubin_sim.selfcal import LsqrSolver, OffsetSNR, generate_catalog
+from rubin_sim.selfcal.offsets import OffsetSys
 
 
 def _match(arr1, arr2):
@@ -63,10 +65,6 @@ class PhotometricSelfCalUniformityMetric(BaseMetric):
         self.filter_name = filter_name
 
     def run(self, data_slice, slice_point=None):
-        # rubin_sim.selfcal imports rubin_sim.maf, so import it only here.
-        from rubin_sim.selfcal import LsqrSolver, OffsetSNR, generate_catalog
-        from rubin_sim.selfcal.offsets import OffsetSys
-
         offsets = [OffsetSys(error_sys=0.03), OffsetSNR(lsst_filter=self.filter_name)]
 
         visits = np.zeros(
diff --git a/rubin_sim/selfcal/offsets.py b/rubin_sim/selfcal/offsets.py
index feb732d..0928957 100644
--- a/rubin_sim/selfcal/offsets.py
+++ b/rubin_sim/selfcal/offsets.py
@@ -2,8 +2,6 @@ __all__ = ["NoOffset", "OffsetSNR", "BaseOffset"]
 
 import numpy as np
 
-from ..maf.utils.astrometry_utils import m52snr
-
 # from lsst.sims.selfcal.clouds.Arma import ArmaSf, Clouds
 
 
@@ -97,6 +95,9 @@ class OffsetSNR(BaseOffset):
 
     def calc_mag_errors(self, magnitudes, m5, err_only=False):
         """ """
+        # rubin_sim.maf imports rubin_sim.selfcal, so import it only here.
+        from ..maf.utils.astrometry_utils import m52snr
+
         snr = m52snr(magnitudes, m5)
         # via good old https://www.eso.org/~ohainaut/ccd/sn.html
         magnitude_errors = 2.5 * np.log10(1.0 + 1.0 / snr)
-- 
2.43.0

