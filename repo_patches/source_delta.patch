From 294ef8709f31782d7afb7e0095cb8b3e6384a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:21 +0000
Subject: [PATCH 01/11] fix: differential scoring looks up references for the
 reader's own videos

_get_ref_mos iterated dataset.dis_videos, so a reader that selects or reorders
videos got reference scores of other videos (or a spurious assertion).
---
 sureal/subjective_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index 1d82c74..079c894 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -99,7 +99,7 @@ class SubjectiveModel(TypeVersionEnabled):
     @staticmethod
     def _get_ref_mos(dataset_reader, mos):
         ref_mos = []
-        for dis_video in dataset_reader.dataset.dis_videos:
+        for dis_video in dataset_reader.dis_videos:
             # get the dis video's ref video's mos
             curr_content_id = dis_video['content_id']
             ref_indices = indices(
-- 
2.43.0


From 9b92e80a6b2f608e1921bb3809a9159939eb8a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:09 +0000
Subject: [PATCH 02/11] fix: density of the sum of two uniforms is evaluated at
 the point shifted by both locations

---
 sureal/tools/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index 15a45e4..e38d6d8 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -108,13 +108,13 @@ def convolution_of_two_uniforms(x, loc1, s1, loc2, s2):
     if - s/2. <= z < - d/2.:
         x0, y0 = - s / 2., 0
         x1, y1 = -d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     elif -d/2. <= z < d/2.:
         return h
     elif d/2. <= z < s/2.:
         x0, y0 = s / 2., 0
         x1, y1 = d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     else:
         return 0.
 
-- 
2.43.0


From 16490d790c4bd7df63eeefef069709b49f36cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:09 +0000
Subject: [PATCH 03/11] fix: persist_to_file hashes the encoded call instead of
 failing on every call

---
 sureal/tools/decorator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index d4f8c28..d0fbb50 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -25,7 +25,7 @@ def persist_to_file(file_name):
                 sys.exit(1)
 
         def new_func(*args):
-            h = hashlib.sha1(str(original_func.__name__) + str(args)).hexdigest()
+            h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             if h not in cache:
                 cache[h] = original_func(*args)
                 json.dump(cache, open(file_name, 'wt'))
-- 
2.43.0


From 2f3909f2f77076b1902fdb83978ea60aed696746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:54 +0000
Subject: [PATCH 04/11] fix: importing a dataset file returns a fresh dataset
 instead of overwriting one imported earlier under the same name

---
 sureal/tools/misc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 42fa19a..453ffb6 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -115,7 +115,12 @@ def import_python_file(filepath):
     filename = get_file_name_without_extension(filepath)
     try:
         from importlib.machinery import SourceFileLoader
-        ret = SourceFileLoader(filename, filepath).load_module()
+        from importlib.util import module_from_spec, spec_from_file_location
+        # always a fresh module made from the current source: neither a module imported
+        # earlier from a file of the same name nor stale bytecode must leak into it
+        loader = SourceFileLoader(filename, filepath)
+        ret = module_from_spec(spec_from_file_location(filename, filepath, loader=loader))
+        exec(loader.source_to_code(loader.get_data(filepath), filepath), ret.__dict__)
     except ImportError:
         import imp
         ret = imp.load_source(filename, filepath)
-- 
2.43.0


From e81df94732fc701a7583047e4246750f6dbd9d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:54 +0000
Subject: [PATCH 05/11] fix: to_pc_dataset leaves the votes of a list-style
 source dataset unchanged

---
 sureal/dataset_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 84ffac6..21d82e0 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -400,7 +400,8 @@ class RawDatasetReader(DatasetReader):
         if isinstance(dis_videos[0]['os'], dict):
             pass
         elif isinstance(dis_videos[0]['os'], (list, tuple)):
-            # converting to dict_style
+            # converting to dict_style, on a copy: the source dataset must keep its votes
+            dis_videos = copy.deepcopy(dis_videos)
             for dis_video in dis_videos:
                 scores = dis_video['os']
                 dis_video['os'] = dict(zip(map(lambda x: str(x), range(len(scores))), scores))
-- 
2.43.0


From 4d26dae7ce8da71312afe39b96af8bd45b8187e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:54 +0000
Subject: [PATCH 06/11] fix: merging overlapping datasets keeps the first
 dataset's votes unchanged and flattens repeated votes given as tuples

---
 sureal/dataset_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 21d82e0..e1f7a2b 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -567,13 +567,13 @@ class RawDatasetReader(DatasetReader):
 
                     for key in vid2['os'].keys():
                         if key in vid1['os'].keys():  # the same subject is in both datasets
-                            if not isinstance(vid1['os'][key], list):
+                            if not isinstance(vid1['os'][key], (list, tuple)):
                                 new_os = [vid1['os'][key]]
                             else:
-                                new_os = vid1['os'][key]
+                                new_os = list(vid1['os'][key])
 
-                            if isinstance(vid2['os'][key], list):
-                                new_dis_video['os'][key] = new_os + vid2['os'][key]
+                            if isinstance(vid2['os'][key], (list, tuple)):
+                                new_dis_video['os'][key] = new_os + list(vid2['os'][key])
                             else:
                                 new_os.append(vid2['os'][key])
                                 new_dis_video['os'][key] = new_os
-- 
2.43.0


From 40ef9ab45141b7576f38f21cdf548d8985eccde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:54 +0000
Subject: [PATCH 07/11] fix: paired-comparison matrix indexes the compared
 video by its position, not by its asset id

---
 sureal/dataset_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index e1f7a2b..7729e6d 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -1028,14 +1028,20 @@ class PairedCompDatasetReader(RawDatasetReader):
         for i_observer, observer in enumerate(list_observers):
             dict_observer_to_iobserver[observer] = i_observer
 
+        # build dict: asset_id -> i_dis_video
+        dict_assetid_to_idisvideo = dict()
+        for i_dis_video, dis_video in enumerate(self.dis_videos):
+            dict_assetid_to_idisvideo[dis_video['asset_id']] = i_dis_video
+
         score_3darray = float("NaN") * np.ones([self.num_dis_videos, self.num_dis_videos, self.num_observers])
 
         for i_dis_video, dis_video in enumerate(self.dis_videos):
             for key, value in dis_video['os'].items():
                 assert value in [0, 0.5, 1], \
                     f"expect value in [0, 0.5, 1], but got: {value}"
-                subject, pvs_j = key
+                subject, asset_id_j = key
                 pvs_i = i_dis_video
+                pvs_j = dict_assetid_to_idisvideo[asset_id_j]
                 score_3darray[pvs_i][pvs_j][dict_observer_to_iobserver[subject]] = value  # CAUTION: note the dimension change!
                 score_3darray[pvs_j][pvs_i][dict_observer_to_iobserver[subject]] = 1.0 - value
 
-- 
2.43.0


From 094a0323ce102bbaa73f8960442e9ed716649afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:06 +0000
Subject: [PATCH 08/11] fix: selecting subjects of a list-style dataset reads
 the votes of all its observers before selecting

---
 sureal/dataset_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 7729e6d..1158c91 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -179,7 +179,7 @@ class RawDatasetReader(DatasetReader):
                     isinstance(self.dis_videos[0]['os'], tuple)
         ):
             for dis_video in self.dis_videos:
-                for idx_obs in range(self.num_observers):
+                for idx_obs in range(self._get_num_observers()):
                     scores = dis_video['os'][idx_obs]
                     if isinstance(scores, list) or isinstance(scores, tuple):
                         if len(scores) > max_reps:
@@ -214,7 +214,7 @@ class RawDatasetReader(DatasetReader):
         if isinstance(self.dis_videos[0]['os'], list) \
                 or isinstance(self.dis_videos[0]['os'], tuple):
             for i_dis_video, dis_video in enumerate(self.dis_videos):
-                for i_observer in range(self.num_observers):
+                for i_observer in range(self._get_num_observers()):
                     if isinstance(dis_video['os'][i_observer], list) or isinstance(dis_video['os'][i_observer], tuple):
                         reps = len(dis_video['os'][i_observer])
                     else:
-- 
2.43.0


From c7c17697f3de979c8e2d200eebcc21fb63f321c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:15 +0000
Subject: [PATCH 09/11] fix: vectorized_convolution_of_two_logistics on Python
 3

parallel_map needs a sequence, zip is an iterator; numerical_pdf='logistic'
raised TypeError for every input.
---
 sureal/tools/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index e38d6d8..919811e 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -68,7 +68,7 @@ def vectorized_convolution_of_two_logistics(xs, locs1, scales1, locs2, scales2):
     xshape = xs.shape
     assert xshape == locs1.shape == scales1.shape == locs2.shape == scales2.shape
     with np.errstate(over='ignore'):
-        res = parallel_map(ff2, zip(xs, locs1, scales1, locs2, scales2), pause_sec=None)
+        res = parallel_map(ff2, list(zip(xs, locs1, scales1, locs2, scales2)), pause_sec=None)
     return np.array(res)
 
     # === test: test one gaussian ===
-- 
2.43.0


From 120ff2e6d5fff1a509776b4613fa0935d425e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:15 +0000
Subject: [PATCH 10/11] fix: density of a missing value under two uniforms is
 missing, not zero

With numerical_pdf='uniform' every missing vote made the log-likelihood -inf.
---
 sureal/tools/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index 919811e..23b0e7a 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -115,6 +115,8 @@ def convolution_of_two_uniforms(x, loc1, s1, loc2, s2):
         x0, y0 = s / 2., 0
         x1, y1 = d / 2., h
         return (y1 - y0) / (x1 - x0) * (z - x0) + y0
+    elif np.isnan(z):
+        return z  # density of a missing value is missing
     else:
         return 0.
 
-- 
2.43.0


From 35cb35067c9eb96116f8f0c3dee230f494610a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:17 +0000
Subject: [PATCH 11/11] fix: report of a model that gives no standard errors
 (BT_NR) no longer fails

---
 sureal/routine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 745df44..f6f15ca 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -613,7 +613,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
         assert 'quality_scores' in result
         assert 'dis_video_names' in result
         assert len(result['dis_video_names']) == len(result['quality_scores'])
-        if 'quality_scores_std' in result:
+        if result.get('quality_scores_std') is not None:
             assert len(result['quality_scores']) == len(result['quality_scores_std'])
         if 'quality_scores_ci95' in result:
             assert len(result['quality_scores_ci95']) == 2
@@ -663,7 +663,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
                 output.setdefault('dis_videos', dict()).setdefault(idx, dict())['dis_video_name'] = dis_video_name
         for idx, quality_score in enumerate(result['quality_scores']):
             output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score'] = quality_score
-        if 'quality_scores_std' in result:
+        if result.get('quality_scores_std') is not None:
             for idx, quality_score_std in enumerate(result['quality_scores_std']):
                 output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score_std'] = quality_score_std
         if 'quality_scores_ci95' in result:
-- 
2.43.0

