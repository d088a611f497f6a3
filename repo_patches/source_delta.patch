From 751d4bf134c866d5fc0a2b7fbf1f2a4a7ea06f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:59 +0000
Subject: [PATCH 01/81] fix: ACExtractor reads the current file instead of
 linecache's stale copy

---
 matersdk/io/pwmat/utils/acextractor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index fca462b..b0c9f7d 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -4,7 +4,6 @@
 2. ACEstrExtractor: Extract info from string of MOVEMENT
 '''
 import re
-import linecache
 import numpy as np
 from abc import ABC, abstractmethod
 from typing import List, Union, Optional
@@ -95,7 +94,8 @@ class ACExtractor(ACExtractorBase):
             1. 得到体系的总原子数目
         '''
         # atom.config 文件第一行综合描述这个体系
-        first_row = linecache.getline(self.atom_config_path, 1)
+        with open(self.atom_config_path, 'r') as f:
+            first_row = f.readline()
         num_atoms = int( first_row.split()[0] )
         return num_atoms
 
@@ -122,8 +122,11 @@ class ACExtractor(ACExtractorBase):
                             content=content)[0]
 
         ### Step 2. 获取基矢向量
-        for row_idx in [idx_row+1, idx_row+2, idx_row+3]:
-            row_content:List[str] = linecache.getline(self.atom_config_path, row_idx).split()[:3]
+        with open(self.atom_config_path, 'r') as f:
+            atom_config_content = f.readlines()
+
+        for row in atom_config_content[idx_row:idx_row+3]:
+            row_content:List[str] = row.split()[:3]
             
             for value in row_content:
                 basis_vectors.append(float(value))
-- 
2.43.0


From 48b1f316c88656322ddadc4824543d6a1e2100f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:59 +0000
Subject: [PATCH 02/81] fix: ACstrExtractor.get_magmoms used the list of
 matches as an index

---
 matersdk/io/pwmat/utils/acextractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index b0c9f7d..bcab2cb 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -331,7 +331,7 @@ class ACstrExtractor(ACExtractorBase):
         magnetic_moments_lst = []
         try:
             aim_content = "MAGNETIC"
-            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)
+            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)[-1]
             
             magnetic_moments_content = self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]
             magnetic_moments_lst = [float(tmp_magnetic_moment.split()[-1]) for tmp_magnetic_moment in magnetic_moments_content]
-- 
2.43.0


From 77a9b7774545803be4f647a784f7d27d968b5845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:59 +0000
Subject: [PATCH 03/81] fix: DStructure.from_str used attributes ACstrExtractor
 does not have

---
 matersdk/io/publicLayer/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 4faaec4..45ca73b 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -89,9 +89,9 @@ class DStructure(Structure):
         if (str_format == "pwmat"):
             atom_config_str_extractor = ACstrExtractor(atom_config_str=str_content)
             structure = Structure(
-                            lattice=atom_config_str_extractor.basis_vectors_array,
-                            species=atom_config_str_extractor.species_array,
-                            coords=atom_config_str_extractor.coords_array,
+                            lattice=atom_config_str_extractor.get_basis_vectors().reshape(3, 3),
+                            species=atom_config_str_extractor.get_types(),
+                            coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
                             coords_are_cartesian=coords_are_cartesian)
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
-- 
2.43.0


From 864a2aab0351a4e2d9a18029de141f6a03095b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:59 +0000
Subject: [PATCH 04/81] fix: DStructure.reformat_elements kept the coordinates
 in the old order

---
 matersdk/io/publicLayer/structure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 45ca73b..d006571 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -255,16 +255,16 @@ class DStructure(Structure):
         #print(new_species_lst)
         
         ### Step 2.3. `coords` and `coords_are_cartesian`
-        new_coords = self.frac_coords
+        new_coords = [tmp_site.frac_coords for tmp_site in new_sites_lst]
         new_coords_are_cartesian = False
         #print(new_coords)
         
         ### Step 2.4. `site_properties`
         new_site_properties = {}
         ### Step 2.4.1. `magmom`
-        new_magmom = [tmp_site.magmom for tmp_site in new_sites_lst]
-        
-        new_site_properties.update({"magmom": new_magmom})
+        if "magmom" in self.site_properties:
+            new_magmom = [tmp_site.magmom for tmp_site in new_sites_lst]
+            new_site_properties.update({"magmom": new_magmom})
         #print(new_site_properties)
         
         structure = DStructure(
-- 
2.43.0


From d9497702a58278b2b550de3bd2ba1f835c82fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:59 +0000
Subject: [PATCH 05/81] fix: DStructure.remove_vacanies removed the vacancy
 indices once per vacancy

---
 matersdk/io/publicLayer/structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index d006571..7a39324 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -363,8 +363,7 @@ class DStructure(Structure):
             if str(site.specie) == "X0+":
                 remove_indexes_lst.append(tmp_idx)
     
-        for tmp_idx in remove_indexes_lst:
-            self.remove_sites(indices=remove_indexes_lst)
+        self.remove_sites(indices=remove_indexes_lst)
     
     
     def make_supercell_(self,
-- 
2.43.0


From 7e3ef9d2d021f4720c275f7e690f2fafd294e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:59 +0000
Subject: [PATCH 06/81] fix: DStructure.get_natoms lists elements by ascending
 atomic number as documented

---
 matersdk/io/publicLayer/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 7a39324..11f9932 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -626,7 +626,7 @@ class DStructure(Structure):
             pass
         else:
             # list( dict_keys([3, 14]) )
-            atomic_numbers_order:List[int] = list( an_counter.keys() )
+            atomic_numbers_order:List[int] = sorted( an_counter.keys() )
             
         natoms:List[int] = [an_counter[tmp_an] for tmp_an in atomic_numbers_order]
         natoms.insert(0, self.num_sites)
-- 
2.43.0


From 4b91ae7053a944d8db65e2adf8749603bae28e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:59 +0000
Subject: [PATCH 07/81] fix: DStructure.from_file ignored its sort argument

---
 matersdk/io/publicLayer/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 11f9932..d582e45 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -60,6 +60,8 @@ class DStructure(Structure):
                 coords_are_cartesian=False) # atom.config 默认均为分数坐标
 
         structure.__class__ = cls
+        if sort:
+            structure.reformat_elements_()
         return structure
     
     
-- 
2.43.0


From deae8fa66bd1bb1d518525ecc0723a7001a9bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:16 +0000
Subject: [PATCH 08/81] fix: MVExtractor.get_frame_info uses the field order of
 get_frames_info and get_info_labels

---
 matersdk/io/pwmat/utils/mvextractor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/utils/mvextractor.py b/matersdk/io/pwmat/utils/mvextractor.py
index 1ca0146..5d37bc4 100644
--- a/matersdk/io/pwmat/utils/mvextractor.py
+++ b/matersdk/io/pwmat/utils/mvextractor.py
@@ -97,12 +97,12 @@ class MVExtractor(object):
         if self.virial_mark:
             virial = ace_str_extractor.get_virial()
             infos.append( virial )
-        if self.magmoms_mark:
-            magmoms = ace_str_extractor.get_magmoms()
-            infos.append( magmoms )
         if self.eatoms_mark:
             eatoms = ace_str_extractor.get_eatoms()
             infos.append( eatoms )
+        if self.magmoms_mark:
+            magmoms = ace_str_extractor.get_magmoms()
+            infos.append( magmoms )
         
         return infos
     
@@ -164,7 +164,7 @@ class MVExtractor(object):
         if self.virial_mark:
             info_labels.append("virial")
         if self.eatoms_mark:
-            info_labels.append("etaoms")
+            info_labels.append("eatoms")
         if self.magmoms_mark:
             info_labels.append("magmoms")
         
-- 
2.43.0


From d1a2cdb30d31ecef6d645eca66b681a8ae2639bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:16 +0000
Subject: [PATCH 09/81] fix: InfoSets.from_dir gave merged sets the
 formula_dict of the last file read

---
 matersdk/data/infosets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matersdk/data/infosets.py b/matersdk/data/infosets.py
index 38748b2..6333b71 100644
--- a/matersdk/data/infosets.py
+++ b/matersdk/data/infosets.py
@@ -81,6 +81,7 @@ class InfoSets(object):
                 num_frames_lst:List[int] = []
                 for tmp_infoset in infoset_lst:
                     if tmp_infoset.formula == tmp_formula:
+                        tmp_formula_dict = tmp_infoset.formula_dict
                         box_lst.append(tmp_infoset.box)
                         types_lst.append(tmp_infoset.types)
                         coord_lst.append(tmp_infoset.coord)
@@ -100,7 +101,7 @@ class InfoSets(object):
                 parameters.update({"etot": np.concatenate(etot_lst, axis=0)})
                 parameters.update({"fatom": np.concatenate(fatom_lst, axis=0)})
                 parameters.update({"formula": tmp_formula})
-                parameters.update({"formula_dict": tmp_infoset.formula_dict})
+                parameters.update({"formula_dict": tmp_formula_dict})
                 parameters.update({"num_frames": sum(num_frames_lst)})
                 if not False in virial_mark_lst:
                     parameters.update({"virial": np.concatenate(virial_lst, axis=0)})
-- 
2.43.0


From 5df99b6356c357780d7470aa54b25347977cd8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:58 +0000
Subject: [PATCH 10/81] fix: neighbour-index tables reported an atom at the
 origin for padding entries

---
 matersdk/io/publicLayer/neigh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 9411a11..8c7140e 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -182,6 +182,8 @@ class StructureNeighborsUtils(object):
                             3)
         )
         
+        # shape = (num_efficient_rows,) -- 每个有效行的近邻原子数 (不包括 zero-padding)
+        efficient_num_nbrs = np.count_nonzero(mask_tot[mask_efficient_rows], axis=1)
         efficient_center_idx = 0    # 记录填写到第几个有效行
         for tmp_center in range(key_nbr_coords.shape[0]):
             tmp_mask = mask_tot[tmp_center, :]
@@ -196,6 +198,9 @@ class StructureNeighborsUtils(object):
         for tmp_center_idx, tmp_center_nbr_coord in enumerate(new_nbr_coords):
             tmp_neigh_list = []
             for tmp_nbr_idx, tmp_nbr_coord in enumerate(tmp_center_nbr_coord):
+                if tmp_nbr_idx >= efficient_num_nbrs[tmp_center_idx]:   # zero-padding
+                    tmp_neigh_list.append(0)
+                    continue
                 tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
             neigh_list.append(tmp_neigh_list)
         neigh_list = np.array(neigh_list)
-- 
2.43.0


From b5750aab970fe9ab7dd00a7e3172a697d8a2344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:58 +0000
Subject: [PATCH 11/81] fix: get_nbrs_indices failed with its default
 max_num_nbrs=False

---
 matersdk/io/publicLayer/neigh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 8c7140e..2e72672 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -249,7 +249,7 @@ class StructureNeighborsUtils(object):
                             struct_nbr=struct_nbr,
                             center_atomic_number=tmp_center_an,
                             nbr_atomic_number=tmp_nbr_an,
-                            max_num_nbrs=max_num_nbrs[tmp_nbr_an_idx],
+                            max_num_nbrs=max_num_nbrs[tmp_nbr_an_idx] if max_num_nbrs else False,
                         )
                 tmp_center_neigh_lists_lst.append(tmp_nbr_neigh_list)
             tmp_center_neigh_lists_array = np.concatenate(tmp_center_neigh_lists_lst, axis=1)
-- 
2.43.0


From a5f699ee16de82b3b3c59966f6cc37ffb4ec7cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:58 +0000
Subject: [PATCH 12/81] fix: AdjacentMatrix really rejects even scaling factors

---
 matersdk/feature/graph/edge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/feature/graph/edge.py b/matersdk/feature/graph/edge.py
index 58563e2..84f2d81 100644
--- a/matersdk/feature/graph/edge.py
+++ b/matersdk/feature/graph/edge.py
@@ -31,9 +31,9 @@ class AdjacentMatrix(object):
         self.scaling_matrix = scaling_matrix
         
         # 确保扩包倍数为奇数
-        assert ( (self.scaling_matrix[0] > 0) and (self.scaling_matrix[0] / 2 != 0) )
-        assert ( (self.scaling_matrix[1] > 0) and (self.scaling_matrix[1] / 2 != 0) )
-        assert ( (self.scaling_matrix[2] > 0) and (self.scaling_matrix[2] / 2 != 0) )
+        assert ( (self.scaling_matrix[0] > 0) and (self.scaling_matrix[0] % 2 != 0) )
+        assert ( (self.scaling_matrix[1] > 0) and (self.scaling_matrix[1] % 2 != 0) )
+        assert ( (self.scaling_matrix[2] > 0) and (self.scaling_matrix[2] % 2 != 0) )
     
     
     def get_adjacent_matrix(self):
-- 
2.43.0


From 782f98b44de053bafea673e2934bca54ffc51291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:47 +0000
Subject: [PATCH 13/81] fix: tildeR and its derivative vanish at and beyond
 rcut, as documented

---
 matersdk/feature/deepmd/se_pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matersdk/feature/deepmd/se_pair.py b/matersdk/feature/deepmd/se_pair.py
index cad30ba..fe680fa 100644
--- a/matersdk/feature/deepmd/se_pair.py
+++ b/matersdk/feature/deepmd/se_pair.py
@@ -180,6 +180,8 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                                 (self.dp_feature_pair_d>rcut_smooth) & (self.dp_feature_pair_d<rcut),
                                 dp_feature_pair_d_scaled,
                                 dp_feature_pair_d_reciprocal)
+        # r >= rcut: s(r) = 0
+        dp_feature_pair_s = np.where(self.dp_feature_pair_d>=rcut, 0, dp_feature_pair_s)
         #print(dp_feature_pair_s)
 
         return dp_feature_pair_s
@@ -335,6 +337,7 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                 vv_mask_1,
                 vv_mask_2
         )
+        vv = np.where(self.dp_feature_pair_d>=self.rcut, 0, vv)
         
         ### Step 1.2.4. 根据 dvv_mask_1, dvv_mask_2 计算 dvv
         # shape = (num_centers, num_nbrs)
@@ -343,6 +346,7 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                 dvv_mask_1,
                 dvv_mask_2
         )        
+        dvv = np.where(self.dp_feature_pair_d>=self.rcut, 0, dvv)
         
         
         ### Step 2. Calculate the derivative of (1/r * vv)
-- 
2.43.0


From 8c09603a1774614e3f10799fda2449093edea06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:23 +0000
Subject: [PATCH 14/81] fix: KMesh could not be constructed (from_file has no
 coords_are_cartesian)

---
 matersdk/calculation/kpoints/kmesh.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/matersdk/calculation/kpoints/kmesh.py b/matersdk/calculation/kpoints/kmesh.py
index abf021b..75fb954 100644
--- a/matersdk/calculation/kpoints/kmesh.py
+++ b/matersdk/calculation/kpoints/kmesh.py
@@ -11,7 +11,6 @@ class KMesh(object):
         self.structure = DStructure.from_file(
                                         file_format=file_format,
                                         file_path=file_path,
-                                        coords_are_cartesian=False,
                                         )
     
     def get_lattice_info(self):
-- 
2.43.0


From d3419ecbfbee025a25d36267db2b944c91d983d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:23 +0000
Subject: [PATCH 15/81] fix: KpathSampler computes segment lengths in the
 reciprocal lattice (matrix product)

---
 matersdk/calculation/kpath/kpathSampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/matersdk/calculation/kpath/kpathSampler.py b/matersdk/calculation/kpath/kpathSampler.py
index 628ac6e..2206ddb 100644
--- a/matersdk/calculation/kpath/kpathSampler.py
+++ b/matersdk/calculation/kpath/kpathSampler.py
@@ -143,8 +143,9 @@ class KpathSampler(KPathSetyawanCurtarolo):
                         position_start_array = np.array(position_start)
                         position_dest_array = np.array(position_dest)
                         path_length = np.linalg.norm(
-                                (position_dest_array - position_start_array).reshape(-1, 3) * \
-                                        reciprocal_lattice_crystalloggraphic
+                                np.dot(
+                                    position_dest_array - position_start_array,
+                                    reciprocal_lattice_crystalloggraphic)
                                 )
                         num_bandpoint = np.ceil(path_length/density)
                     
-- 
2.43.0


From 7f08cc968161cd6dc7846753fba5582196060216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:23 +0000
Subject: [PATCH 16/81] fix: Inkpt reads the current file instead of
 linecache's stale copy

---
 matersdk/io/pwmat/input/inkpt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/input/inkpt.py b/matersdk/io/pwmat/input/inkpt.py
index 475456c..c6512a1 100644
--- a/matersdk/io/pwmat/input/inkpt.py
+++ b/matersdk/io/pwmat/input/inkpt.py
@@ -1,4 +1,3 @@
-import linecache
 import numpy as np
 from typing import List
 
@@ -42,7 +41,8 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        with open(self.in_kpt_path, "r") as f:
+            line_2 = f.readlines()[1]
         iflag = int( line_2.split()[0] )
         return iflag
     
@@ -59,7 +59,8 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        with open(self.in_kpt_path, "r") as f:
+            line_2 = f.readlines()[1]
         a0 = int( line_2.split()[-1] )
         return a0
     
@@ -74,7 +75,8 @@ class Inkpt(object):
         ------
             1. num_kpts: int
         '''
-        line_1 = linecache.getline(self.in_kpt_path, 1)
+        with open(self.in_kpt_path, "r") as f:
+            line_1 = f.readline()
         num_kpts = int( line_1.split()[0] )
         return num_kpts
     
-- 
2.43.0


From d24e2af549bb678abcf38846723d76a0355b87e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:33 +0000
Subject: [PATCH 17/81] fix: Report and OutFermi read the current files instead
 of linecache's stale copy

---
 matersdk/io/pwmat/output/outfermi.py |  5 ++---
 matersdk/io/pwmat/output/report.py   | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/matersdk/io/pwmat/output/outfermi.py b/matersdk/io/pwmat/output/outfermi.py
index 7a824a7..1fe7dd8 100644
--- a/matersdk/io/pwmat/output/outfermi.py
+++ b/matersdk/io/pwmat/output/outfermi.py
@@ -1,5 +1,3 @@
-import linecache
-
 import numpy as np
 
 
@@ -15,7 +13,8 @@ class OutFermi(object):
         -----------
             1. 从 `self.out_fermi_path` 中读取费米能级(unit: eV)
         '''
-        first_row = linecache.getline(self.out_fermi_path, 1)
+        with open(self.out_fermi_path, "r") as f:
+            first_row = f.readline()
         first_row_lst = first_row.split()
         efermi_ev = np.round(float(first_row_lst[-2]), 3)
         return efermi_ev
\ No newline at end of file
diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index a261676..c4f433c 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -1,6 +1,5 @@
 import os
 import math
-import linecache
 import numpy as np
 from typing import Dict
 
@@ -40,6 +39,16 @@ class Report(object):
         return idxs_lst
     
     
+    def _get_line(self, idx:int):
+        '''
+        Description
+        -----------
+            1. 读取 REPORT 文件的第 idx 行 (从 1 开始)
+        '''
+        with open(self.report_path, "r") as f:
+            return f.readlines()[idx-1]
+    
+    
     def get_num_bands(self):
         '''
         Description
@@ -56,7 +65,7 @@ class Report(object):
         idx_num_bands = self._search_aim(aim_content=aim_content)[0]
         #print(idx_num_bands)
         ### Step 2. 提取能带的数目
-        specific_line = linecache.getline(self.report_path, idx_num_bands)
+        specific_line = self._get_line(idx_num_bands)
         num_bands = int( specific_line.split()[-1] )
         
         return num_bands
@@ -78,7 +87,7 @@ class Report(object):
         idx_num_kpts = self._search_aim(aim_content=aim_content)[0]
         
         ### Step 2. 提取kpoints的数目
-        specific_line = linecache.getline(self.report_path, idx_num_kpts)
+        specific_line = self._get_line(idx_num_kpts)
         num_kpts = int( specific_line.split()[-1] )
         
         return num_kpts
@@ -153,7 +162,7 @@ class Report(object):
         '''        
         aim_conetent_inatom = "IN.ATOM"
         idx_inatom = self._search_aim(aim_content=aim_conetent_inatom)[0]
-        in_atom_name = linecache.getline(self.report_path, idx_inatom).split()[-1]
+        in_atom_name = self._get_line(idx_inatom).split()[-1]
     
         return in_atom_name
     
-- 
2.43.0


From 9f9d235eb02449e9f6658b2b5ad6aabda47e79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:33 +0000
Subject: [PATCH 18/81] fix: Report listed the band edge's degenerate partners
 at the wrong k-point and band

---
 matersdk/io/pwmat/output/report.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index c4f433c..8bfbcd6 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -143,7 +143,7 @@ class Report(object):
         
         ### Step 5. 当 ispin 打开时，自旋向上和向下的(kpoints, eigen_states)应该相等
         if spin2eigen_energies["down"].size != 0:
-            assert (spin2eigen_energies["up"].shape != spin2eigen_energies["down"])
+            assert (spin2eigen_energies["up"].shape == spin2eigen_energies["down"].shape)
         
         return spin2eigen_energies
     
@@ -193,7 +193,7 @@ class Report(object):
         ### Step 1. 得到费米能级
         ### Step 1.1. 判断是否存在 OUT.FERMI 文件
         if not os.path.exists(out_fermi_path):
-            raise("当前目录下不存在 OUT.FERMI 文件，无法读取费米能级！")
+            raise FileNotFoundError("当前目录下不存在 OUT.FERMI 文件，无法读取费米能级！")
         ### Step 1.2. 从 OUT.FERMI 中读取费米能级
         out_fermi_object = OutFermi(out_fermi_path=out_fermi_path)
         efermi_ev = out_fermi_object.get_efermi()
@@ -271,7 +271,8 @@ class Report(object):
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt][idx_band] - cbm_energy) < 0.001:
+                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt-1][idx_band] - cbm_energy) < 0.001 \
+                            and (tmp_spin, idx_band + 1) != (cbm_spin, cbm_band):
                         cbm_dict["energies"].append(cbm_energy)
                         cbm_dict["kpts"].append(cbm_kpt)
                         cbm_dict["bands"].append(idx_band + 1)
@@ -332,10 +333,11 @@ class Report(object):
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt][idx_band] - vbm_energy) < 0.001:
+                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt-1][idx_band] - vbm_energy) < 0.001 \
+                            and (tmp_spin, idx_band + 1) != (vbm_spin, vbm_band):
                         vbm_dict["energies"].append(vbm_energy)
                         vbm_dict["spins"].append(tmp_spin)
-                        vbm_dict["bands"].append(idx_band)
+                        vbm_dict["bands"].append(idx_band + 1)
                         vbm_dict["kpts"].append(vbm_kpt)
                 except: # spin2eigen_energies["down"] 为空时，会触发 `IndexError`
                     pass
-- 
2.43.0


From 159a334713ab9c220b3b6560810550ad3323fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:33 +0000
Subject: [PATCH 19/81] fix: Report.get_bandgap and get_bandgap_type failed on
 metals

---
 matersdk/io/pwmat/output/report.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index 8bfbcd6..3cca94e 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -366,7 +366,9 @@ class Report(object):
         vbm_dict = self.get_vbm(out_fermi_path=out_fermi_path)
         cbm_dict = self.get_cbm(out_fermi_path=out_fermi_path)
         
-        ### Step 2. 得到带隙的大小
+        ### Step 2. 得到带隙的大小 (金属的带隙为 0)
+        if vbm_dict is None or cbm_dict is None:
+            return 0.0
         bandgap = cbm_dict["energies"][0] - vbm_dict["energies"][0]
         
         return bandgap
@@ -383,13 +385,16 @@ class Report(object):
             1. int:
                 - 0: 间接带隙
                 - 1: 直接带隙
+                - None: 金属
         '''
         ### Step 1. 得到 CBM 和 VBM
         ### (在 `self.get_cbm()`` 和 `self.get_vbm()` 中判断是金属 or 半导体)
         vbm_dict = self.get_vbm(out_fermi_path=out_fermi_path)
         cbm_dict = self.get_cbm(out_fermi_path=out_fermi_path)
         
-        ### Step 2. 得到带的类型
+        ### Step 2. 得到带的类型 (金属没有带隙类型)
+        if vbm_dict is None or cbm_dict is None:
+            return None
         intersection, idx_1_lst, idx_2_lst = np.intersect1d(
                                                 vbm_dict["kpts"],
                                                 cbm_dict["kpts"],
-- 
2.43.0


From 2b7d41310a588077c2d32085a5cbd09b2984876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:14 +0000
Subject: [PATCH 20/81] fix: Dostotalspin added columns of elements whose
 symbol starts with another symbol

---
 matersdk/io/pwmat/output/dostotalspin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 79acb47..2b9d517 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -111,7 +111,7 @@ class Dostotalspin(object):
         df_elements_lst = []
         new_columns_lst = []
         for tmp_element in elements_lst:
-            tmp_mask = df_dos.columns.str.startswith(tmp_element)
+            tmp_mask = df_dos.columns.str.startswith("{0}-".format(tmp_element))
             df_tmp_element = df_dos.loc[:, tmp_mask].sum(axis=1)
             df_elements_lst.append(df_tmp_element)
             new_columns_lst.append(tmp_element)
-- 
2.43.0


From ff368ee06200cb6a35b0a949050f1f0d7c028ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:14 +0000
Subject: [PATCH 21/81] fix: FatbandStructure added columns (KPOINT, Si, ...)
 that merely start with the symbol

---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index 27d4c81..ae62cf1 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -161,8 +161,7 @@ class FatbandStructure(object):
         
         ### Step 2. 按照元素求权重的和
         for tmp_element in self.elements_lst:
-            tmp_df_element = df.filter(regex="^{0}|KPOINT|ENERGY|weight_tot".format(tmp_element))
-            tmp_serie_element = tmp_df_element.filter(regex="^{0}".format(tmp_element)).sum(axis=1)
+            tmp_serie_element = df.filter(regex="^{0}-".format(tmp_element)).sum(axis=1)
             series_element_lst.append( tmp_serie_element )
         ### 将 `KPOINTS`, `ENERGY`, `weight_tot` 与各元素权重和拼成一个 pd.DataFrame
         series_element_lst.insert(0, df_head)
-- 
2.43.0


From d1900796d381633c6450f1ba199475d7cd9239bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:14 +0000
Subject: [PATCH 22/81] fix: Job.to ran three #SBATCH directives together on
 one line

---
 matersdk/hpc/slurm/job.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/hpc/slurm/job.py b/matersdk/hpc/slurm/job.py
index 9d8e55d..e753698 100644
--- a/matersdk/hpc/slurm/job.py
+++ b/matersdk/hpc/slurm/job.py
@@ -63,8 +63,8 @@ class Job(object):
             f.write("#SBATCH --job-name={0}\n".format(self.name))
             f.write("#SBATCH --nodes={0}\n".format(self.num_nodes))
             f.write("#SBATCH --ntasks-per-node={0}\n".format(self.num_tasks_per_node))
-            f.write("#SBATCH --threads-per-core={0}".format(self.num_threads_per_core))
-            f.write("#SBATCH --gres=gpu:{0}".format(self.num_gpus))
-            f.write("#SBATCH --gpus-per-task={0}".format(self.num_gpus_per_task))
+            f.write("#SBATCH --threads-per-core={0}\n".format(self.num_threads_per_core))
+            f.write("#SBATCH --gres=gpu:{0}\n".format(self.num_gpus))
+            f.write("#SBATCH --gpus-per-task={0}\n".format(self.num_gpus_per_task))
             f.write("\n\n\n")
             f.write("{0}".format(self.command))
\ No newline at end of file
-- 
2.43.0


From ca45446063bfc8d4d273e3dd20d2da0103ee3f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:39 +0000
Subject: [PATCH 23/81] fix: FatbandStructure returns one DataFrame per band
 with current pandas too

---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index ae62cf1..d6d89dd 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -122,6 +122,15 @@ class FatbandStructure(object):
         return df
     
     
+    def _split_bands(self, df:pd.DataFrame):
+        '''
+        Description
+        -----------
+            1. 按照能带把 DataFrame 切分为多个 DataFrame
+        '''
+        return [df.iloc[idxs] for idxs in np.array_split(np.arange(len(df)), self.num_bands)]
+    
+    
     def get_total_dfs_lst(self):
         '''
         Description
@@ -136,7 +145,7 @@ class FatbandStructure(object):
         '''
         df = self._preprocess()
         ### Step 1. 每条能带组成了新的 DataFrame
-        dfs_lst = np.array_split(df, self.num_bands)
+        dfs_lst = self._split_bands(df)
         
         return dfs_lst
     
@@ -171,7 +180,7 @@ class FatbandStructure(object):
         new_df.columns =  new_cols_lst
         
         ### Step 3. 将不同能带的能带分成不同的 pd.DataFrame
-        element_dfs_lst = np.array_split(new_df, self.num_bands)
+        element_dfs_lst = self._split_bands(new_df)
         return element_dfs_lst
         
         
@@ -191,6 +200,6 @@ class FatbandStructure(object):
         df_return = df.filter(regex=re_pattern)
         
         ### Step 2. 将不同band，分成不同的 pd.DataFrame
-        orbital_dfs_lst = np.array_split(df_return, self.num_bands)
+        orbital_dfs_lst = self._split_bands(df_return)
         
         return orbital_dfs_lst
\ No newline at end of file
-- 
2.43.0


From d0a622a52e1764daf57ea24475223fc2a7fd4151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:39 +0000
Subject: [PATCH 24/81] fix: FatbandStructure.get_orbital_dfs_lst matched the
 name inside other elements (S-3P in Cs-3P)

---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index d6d89dd..b92ab01 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -196,7 +196,7 @@ class FatbandStructure(object):
                 - e.g. Mo-4Dxy (大小写无所谓)
         '''
         df = self._preprocess()
-        re_pattern = re.compile("{0}|KPOINT|ENERGY|weight_tot".format(orbital_name), re.IGNORECASE)
+        re_pattern = re.compile("^{0}|^KPOINT$|^ENERGY$|^weight_tot$".format(re.escape(orbital_name)), re.IGNORECASE)
         df_return = df.filter(regex=re_pattern)
         
         ### Step 2. 将不同band，分成不同的 pd.DataFrame
-- 
2.43.0


From 4926b7a93c6926d1f7cc098e10f76495b45b28f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:21 +0000
Subject: [PATCH 25/81] fix: BatchPerturbStructure called DStructure.to with
 parameter names it does not have

---
 matersdk/adalearn/generator/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/adalearn/generator/perturbation.py b/matersdk/adalearn/generator/perturbation.py
index 769b88b..c3ee7ad 100644
--- a/matersdk/adalearn/generator/perturbation.py
+++ b/matersdk/adalearn/generator/perturbation.py
@@ -127,8 +127,8 @@ class BatchPerturbStructure(object):
                 os.mkdir( os.path.join(tmp_system, 'structures') )
             for tmp_perturbed_idx, tmp_pertubed_struct in enumerate(perturbed_structs):
                 tmp_pertubed_struct.to(
-                            output_file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
-                            output_file_format="pwmat")
+                            file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
+                            file_format="pwmat")
 
 
 '''
-- 
2.43.0


From 323d6c106f1bace3e5350dd9047ffed33884ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:21 +0000
Subject: [PATCH 26/81] fix: Movement.get_frame_energy read fixed columns and
 failed on the shorter header line

---
 matersdk/io/pwmat/output/movement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index ae07ef6..5b94f5f 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -272,9 +272,11 @@ class Movement(Trajectory):
 
         ### 2. 获取Etot, Ep, Ek
         first_row_lst = frame_str.split('\n')[0].split()    # 某一帧 chunk 的第一行
-        energy_tot = float( first_row_lst[8].strip() )
-        energy_p = float( first_row_lst[9].strip() )
-        energy_k = float( first_row_lst[10][:-1].strip() )
+        # 第二个等号后面三个数分别是 Etot, Ep, Ek
+        equal_1_idx = ListLocator.locate_all_lines(strs_lst=first_row_lst, content="=")[1]
+        energy_tot = float( first_row_lst[equal_1_idx+1].strip() )
+        energy_p = float( first_row_lst[equal_1_idx+2].strip() )
+        energy_k = float( first_row_lst[equal_1_idx+3].strip().rstrip(',') )
 
         return energy_tot, energy_p, energy_k
     
-- 
2.43.0


From 565dd10477cafdad69ca917f162ebbe83f9af272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:21 +0000
Subject: [PATCH 27/81] fix: Movement did not implement two abstract methods of
 Trajectory and could not be used

---
 matersdk/io/pwmat/output/movement.py | 34 ++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index 5b94f5f..5164748 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -319,5 +319,35 @@ class Movement(Trajectory):
             virial_tensor = np.vstack([virial_tensor_x, virial_tensor_y, virial_tensor_z])
         
         return virial_tensor
-            
-    
\ No newline at end of file
+    
+    
+    def get_frame_volume(self, idx_frame:int):
+        '''
+        Description
+        -----------
+            1. 获取某一帧的体积 (单位: Angstrom^3)
+        
+        Parameters
+        ----------
+            1. idx_frame: int
+                - 第几帧 (从第 0 帧开始计数)
+        '''
+        return self.get_frame_structure(idx_frame=idx_frame).volume
+    
+    
+    def get_max_num_nbrs_real(
+                self,
+                rcut:float,
+                scaling_matrix:List[int]=[3, 3, 3]):
+        '''
+        Description
+        -----------
+            1. 得到该 MOVEMENT 所有帧中原子的`最大近邻原子数目` (不包括自身)
+        '''
+        return max(
+            StructureNeighborsUtils.get_max_num_nbrs_real(
+                            structure=tmp_structure,
+                            rcut=rcut,
+                            scaling_matrix=scaling_matrix,
+                            coords_are_cartesian=True)
+            for tmp_structure in self.get_all_frame_structures())
-- 
2.43.0


From 3394ae25d94105de41ee4e08995d263631b011e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:21 +0000
Subject: [PATCH 28/81] fix: StructCollection.save_all_info called
 DStructure.to with parameter names it does not have

---
 matersdk/data/struct_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 36f0607..dc7156f 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -361,8 +361,8 @@ class StructCollection(object):
             
             ### Step 1.2. 保存相关信息
             self.structures_lst[tmp_idx].to(
-                                    output_file_format="pwmat",
-                                    output_file_path=os.path.join(tmp_image_dir_path, "atom.config"))
+                                    file_format="pwmat",
+                                    file_path=os.path.join(tmp_image_dir_path, "atom.config"))
             # 1. box.npy
             np.save(
                     file=os.path.join(tmp_image_dir_path, "box.npy"),
-- 
2.43.0


From a527f37abc9187ed7b44c25e09f5cb6d3644f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:21 +0000
Subject: [PATCH 29/81] fix: StructCollection.to wrote type indices instead of
 element symbols to type_map.raw

---
 matersdk/data/struct_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index dc7156f..6220529 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -221,7 +221,7 @@ class StructCollection(object):
         for tmp_tm, tmp_an in enumerate(self.atomic_numbers_lst):
             an2tm.update({tmp_an: tmp_tm})
 
-        type_map_str = "\n".join([str(tmp_tm) for tmp_tm in an2tm.values()])
+        type_map_str = "\n".join([atomic_number2specie[tmp_an] for tmp_an in an2tm.keys()])
         type_map_str += "\n"
         with open(f"{dir_path}/type_map.raw", 'w') as f:
             f.write(type_map_str)
-- 
2.43.0


From e5ee3515ca7e601f889b1c15ff6058849b7c0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:21 +0000
Subject: [PATCH 30/81] fix: StructCollection without virials could not be
 exported

---
 matersdk/data/struct_collection.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 6220529..7a74980 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -303,7 +303,7 @@ class StructCollection(object):
         try:    # 不包含 Virial 信息
             virial_tensors_array = np.array([struct_collection.virial_tensors_array[tmp_index] for tmp_index in indices_lst])
         except IndexError as e:
-            virial_tensors_array = np.zeros(10);
+            virial_tensors_array = np.array([])
             
                 
         return StructCollection(
@@ -395,11 +395,12 @@ class StructCollection(object):
                     file=os.path.join(tmp_image_dir_path, "atomic_force.npy"),
                     arr=self.structures_lst[tmp_idx].get_atomic_force()
             )
-            # 8. virial
-            np.save(
-                    file=os.path.join(tmp_image_dir_path, "virial.npy"),
-                    arr=self.virial_tensors_array[tmp_idx]
-            )
+            # 8. virial (没有 virial 信息时不存储)
+            if self.virial_tensors_array.size != 0:
+                np.save(
+                        file=os.path.join(tmp_image_dir_path, "virial.npy"),
+                        arr=self.virial_tensors_array[tmp_idx]
+                )
             # 9. atomic_number
             np.save(
                     file=os.path.join(tmp_image_dir_path, "atomic_number.npy"),
-- 
2.43.0


From d25535c0ed2bc866867c7011d73663b768ac5c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:21 +0000
Subject: [PATCH 31/81] fix: StructCollection could not be indexed by an
 integer

---
 matersdk/data/struct_collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 7a74980..832304a 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -79,6 +79,9 @@ class StructCollection(object):
     
 
     def __getitem__(self, index:int):
+        if isinstance(index, (int, np.integer)):    # 单个 frame
+            index = range(self.num_structures)[index]
+            index = slice(index, index+1)
         return_structures_lst = self.structures_lst[index]
         return_total_energys_array = self.total_energys_array[index]
         return_potential_energys_array = self.potential_energys_array[index]
-- 
2.43.0


From 282f2e889f3bcf801c9202428176a644fce68419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:21 +0000
Subject: [PATCH 32/81] fix: AvgAngle and AvgBond counted the angle of a bond
 with itself and dropped 180-degree angles lost to rounding

---
 matersdk/feature/avg/avgangle.py | 4 ++--
 matersdk/feature/avg/avgbond.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/feature/avg/avgangle.py b/matersdk/feature/avg/avgangle.py
index 54db1df..6a1c456 100644
--- a/matersdk/feature/avg/avgangle.py
+++ b/matersdk/feature/avg/avgangle.py
@@ -77,7 +77,7 @@ class AvgAngle(object):
             mag_1 = np.linalg.norm(array_1)
             mag_2 = np.linalg.norm(array_2)
             cos_value = dot_product / (mag_1 * mag_2)
-            angle_radians = np.arccos(cos_value)
+            angle_radians = np.arccos(np.clip(cos_value, -1, 1))
             angle_degree = np.degrees(angle_radians)    
             return angle_degree
         
@@ -87,7 +87,7 @@ class AvgAngle(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):
+                    for nbr3_idx in range(nbr2_idx+1, key_nbr3_rc.shape[1]):
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 47b61d6..edc13f2 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -191,7 +191,7 @@ class AvgBond(object):
             mag_1 = np.linalg.norm(array_1)
             mag_2 = np.linalg.norm(array_2)
             cos_value = dot_product / (mag_1 * mag_2)
-            angle_radians = np.arccos(cos_value)
+            angle_radians = np.arccos(np.clip(cos_value, -1, 1))
             angle_degree = np.degrees(angle_radians)
             return angle_degree
         
@@ -216,7 +216,7 @@ class AvgBond(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
+                    for nbr3_idx in range(nbr2_idx+1, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
-- 
2.43.0


From 284568055d9aad136b0b5b3f3aa4dc3f63a4e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:10 +0000
Subject: [PATCH 33/81] fix: DStructure.from_str dropped the atomic forces and
 energies that get_atomic_force and StructCollection read

---
 matersdk/io/publicLayer/structure.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index d582e45..71ee843 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -95,6 +95,15 @@ class DStructure(Structure):
                             species=atom_config_str_extractor.get_types(),
                             coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
                             coords_are_cartesian=coords_are_cartesian)
+            # 每个原子的受力和能量 (没有相应信息时为 0)
+            atomic_forces = atom_config_str_extractor.get_fatoms().reshape(-1, 3)
+            try:
+                atomic_energies = atom_config_str_extractor.get_eatoms()
+            except AttributeError:
+                atomic_energies = np.zeros(structure.num_sites)
+            for tmp_idx, tmp_site in enumerate(structure.sites):
+                tmp_site.atomic_force = atomic_forces[tmp_idx]
+                tmp_site.atomic_energy = atomic_energies[tmp_idx:tmp_idx+1]
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
         
-- 
2.43.0


From 03c18ecda16ef6fa5bdc3f329a462bd4220ef673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:55 +0000
Subject: [PATCH 34/81] fix: FFExtractor exported embedding layers by the
 number of fitting layers

---
 matersdk/infer/pwmatmlff/deepmd/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/extractor.py b/matersdk/infer/pwmatmlff/deepmd/extractor.py
index 84ee442..e64d33a 100644
--- a/matersdk/infer/pwmatmlff/deepmd/extractor.py
+++ b/matersdk/infer/pwmatmlff/deepmd/extractor.py
@@ -62,7 +62,7 @@ class FFExtractor(object):
         ### Step 2. Extract force field parameters
         ### Step 2.1. Embedding net (Note: Resnet block)
         for tmp_net_idx in range(self.num_embedding_nets):
-            for tmp_layer_idx in range(self.num_fitting_layers):
+            for tmp_layer_idx in range(self.num_embedding_layers):
                 hdf5_file.create_dataset(
                     "embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx),
                     data=self.model_state_dict["embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx)].numpy()
-- 
2.43.0


From bdb3bba2ccc5bb596712f5225dbdfa376ed5fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:19 +0000
Subject: [PATCH 35/81] fix: AlignedArray copies own their memory

The class is documented for use inside collections, but the implicit copy
shared the buffer and freed it twice.
---
 source/core/include/AlignedArray.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/source/core/include/AlignedArray.h b/source/core/include/AlignedArray.h
index b30cb1e..4ef0bb4 100644
--- a/source/core/include/AlignedArray.h
+++ b/source/core/include/AlignedArray.h
@@ -46,6 +46,29 @@ public:
         this->allocate(size);
     }
 
+    /**
+     * @brief Copy constructor: the copy owns its own (aligned) memory
+     */
+    AlignedArray(const AlignedArray &rhs) : data_size(0), base_ptr(0), data(0) {
+        if (rhs.base_ptr != 0) {
+            this->allocate(rhs.data_size);
+            for (int ii=0; ii<rhs.data_size; ii++)
+                this->data[ii] = rhs.data[ii];
+        }
+    }
+
+    /**
+     * @brief Copy assignment operator
+     */
+    AlignedArray& operator=(const AlignedArray &rhs) {
+        if (this != &rhs) {
+            this->resize(rhs.data_size);
+            for (int ii=0; ii<rhs.data_size; ii++)
+                this->data[ii] = rhs.data[ii];
+        }
+        return *this;
+    }
+
     /**
      * @brief Destructor
      */
-- 
2.43.0


From a228b3d10f40a4acabfaae5bd895c43e03a8e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:21 +0000
Subject: [PATCH 36/81] fix: BasicStructureInfo::operator= returns *this

---
 source/nblist/include/binLinkedList.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 928507e..a93a9c6 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -257,6 +257,8 @@ BasicStructureInfo<CoordType>& BasicStructureInfo<CoordType>::operator=(const Ba
         this->interplanar_distances[1] = rhs.interplanar_distances[1];
         this->interplanar_distances[2] = rhs.interplanar_distances[2];
     }
+
+    return *this;
 }
 
 
-- 
2.43.0


From a6f04fc81397681c57182642035eb4338359612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:21 +0000
Subject: [PATCH 37/81] fix: self-assignment of Structure, Supercell,
 BinLinkedList and NeighborList

The operators freed their own data before copying it.
---
 source/nblist/include/binLinkedList.h | 6 ++++++
 source/nblist/include/neighborList.h  | 3 +++
 source/nblist/include/structure.h     | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index a93a9c6..2f69c20 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -396,6 +396,9 @@ Supercell<CoordType>::Supercell(const Supercell &rhs) {
  */
 template <typename CoordType>
 Supercell<CoordType>& Supercell<CoordType>::operator=(const Supercell<CoordType> &rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         free(this->owned_atom_idxs);
     }
@@ -744,6 +747,9 @@ BinLinkedList<CoordType>::BinLinkedList(const BinLinkedList<CoordType>& rhs) {
  */
 template <typename CoordType>
 BinLinkedList<CoordType>& BinLinkedList<CoordType>::operator=(const BinLinkedList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->rcut != 0) {
         free(this->heads_lst);
         free(this->nexts_lst);
diff --git a/source/nblist/include/neighborList.h b/source/nblist/include/neighborList.h
index c87a24c..f3be963 100644
--- a/source/nblist/include/neighborList.h
+++ b/source/nblist/include/neighborList.h
@@ -208,6 +208,9 @@ NeighborList<CoordType>::NeighborList(const NeighborList<CoordType>& rhs) {
  */
 template <typename CoordType>
 NeighborList<CoordType>& NeighborList<CoordType>::operator=(const NeighborList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         for (int ii=0; ii<num_atoms; ii++)
             this->neighbor_lists[ii].clear();
diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 8113817..6d0bb46 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -317,6 +317,9 @@ Structure<CoordType>::Structure(const Structure &rhs)
  */
 template <typename CoordType>
 Structure<CoordType>& Structure<CoordType>::operator=(const Structure &rhs) {
+    if (this == &rhs)
+        return *this;
+
     // Step 1. Free memory 
     if (this->num_atoms != 0) {
         // Step 1.1. `this->basis_vectors`
-- 
2.43.0


From 1c7964482a2cc1242263e24139e80b42e1835bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:21 +0000
Subject: [PATCH 38/81] fix: empty Structure / Supercell / BinLinkedList
 objects

Their pointers were left uninitialised (or dangling after assigning an empty
object) and were handed out or dereferenced.
---
 source/nblist/include/binLinkedList.h | 15 ++++++---------
 source/nblist/include/neighborList.h  |  1 +
 source/nblist/include/structure.h     | 21 +++++++++++++++++----
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 2f69c20..f27901f 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -89,7 +89,7 @@ private:
     int num_atoms = 0;
     int prim_cell_idx = 0;          // primitive cell 对应的 cell index
     int prim_cell_idx_xyz[3] = {0, 0, 0};   // 
-    int *owned_atom_idxs;           // 
+    int *owned_atom_idxs = nullptr; // 
 }; // class: Supercell
 
 
@@ -137,8 +137,8 @@ private:
     bool pbc_xyz[3] = {false, false, false};
     int num_bin_xyz[3] = {0, 0, 0};             // bin 在 x, y, z 方向上的数量
     CoordType min_limit_xyz[3] = {0, 0, 0};     // box 在 x, y, z 方向上的最小坐标值
-    int* heads_lst;                             // length = number of bins.
-    int* nexts_lst;                             // length = number of atoms in supercell.
+    int* heads_lst = nullptr;                   // length = number of bins.
+    int* nexts_lst = nullptr;                   // length = number of atoms in supercell.
 
 };  // class BinLinkedList
 
@@ -399,9 +399,8 @@ Supercell<CoordType>& Supercell<CoordType>::operator=(const Supercell<CoordType>
     if (this == &rhs)
         return *this;
 
-    if (this->num_atoms != 0) {
-        free(this->owned_atom_idxs);
-    }
+    free(this->owned_atom_idxs);
+    this->owned_atom_idxs = nullptr;
  
     this->num_atoms = rhs.num_atoms;
 
@@ -441,9 +440,7 @@ Supercell<CoordType>& Supercell<CoordType>::operator=(const Supercell<CoordType>
  */
 template <typename CoordType>
 Supercell<CoordType>::~Supercell() {
-    if (this->num_atoms != 0) {
-        free(this->owned_atom_idxs);
-    }
+    free(this->owned_atom_idxs);
 }
 
 
diff --git a/source/nblist/include/neighborList.h b/source/nblist/include/neighborList.h
index f3be963..491dc20 100644
--- a/source/nblist/include/neighborList.h
+++ b/source/nblist/include/neighborList.h
@@ -215,6 +215,7 @@ NeighborList<CoordType>& NeighborList<CoordType>::operator=(const NeighborList<C
         for (int ii=0; ii<num_atoms; ii++)
             this->neighbor_lists[ii].clear();
         delete [] this->neighbor_lists;
+        this->neighbor_lists = nullptr;
     }
 
     
diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 6d0bb46..f5f9415 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -69,10 +69,10 @@ public:
 
 private:
     int num_atoms = 0;  // Note: 初始化为0，防止 `matersdk::Structure<double> structure;` 后，拷贝赋值函数无法得到正确的 `this->num_atoms`
-    CoordType **basis_vectors;
-    CoordType *pseudo_orgin;            // 仅当 `make_supercell` 后改变
-    int *atomic_numbers;
-    CoordType **cart_coords;
+    CoordType **basis_vectors = nullptr;
+    CoordType *pseudo_orgin = nullptr;            // 仅当 `make_supercell` 后改变
+    int *atomic_numbers = nullptr;
+    CoordType **cart_coords = nullptr;
 }; // class: Structure
 
 
@@ -342,6 +342,10 @@ Structure<CoordType>& Structure<CoordType>::operator=(const Structure &rhs) {
 
         // Step 1.5. `this->num_atoms = 0`
         this->num_atoms = 0;
+        this->basis_vectors = nullptr;
+        this->pseudo_orgin = nullptr;
+        this->atomic_numbers = nullptr;
+        this->cart_coords = nullptr;
     }
 
     // Step 2. Reallocate and reassign
@@ -484,6 +488,9 @@ void Structure<CoordType>::calc_cart_coords(CoordType frac_coords[][3]) {
  */
 template <typename CoordType>
 void Structure<CoordType>::make_supercell(const int *scaling_matrix) {
+    if (this->num_atoms == 0)
+        return;
+
     /*
         1. 奇数: 
             ( -\frac{num-1}{2}, \frac{num-1}{2})
@@ -753,6 +760,9 @@ const CoordType* Structure<CoordType>::get_pseudo_origin() const {
  */
 template <typename CoordType>
 CoordType** Structure<CoordType>::get_vertexes() const {
+    if (this->num_atoms == 0)
+        return nullptr;
+
     CoordType** vertexes = (CoordType**)malloc(sizeof(CoordType*) * 8);
     for (int ii=0; ii<8; ii++) {
         vertexes[ii] = (CoordType*)malloc(sizeof(CoordType) * 3);
@@ -794,6 +804,9 @@ CoordType** Structure<CoordType>::get_vertexes() const {
 
 template <typename CoordType>
 CoordType** Structure<CoordType>::get_limit_xyz() const {
+    if (this->num_atoms == 0)
+        return nullptr;
+
     CoordType** limit_xyz = (CoordType**)malloc(sizeof(CoordType*) * 3);
     for (int ii=0; ii<3; ii++) {
         limit_xyz[ii] = (CoordType*)malloc(sizeof(CoordType) * 2);
-- 
2.43.0


From cd21a8004ae3c16ea57b785c6a01715081f4b4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:21 +0000
Subject: [PATCH 39/81] fix: owned atoms of a supercell with an even scaling

owned_atom_idxs assumed cells laid out with x running fastest, while
make_supercell() lays them out with z running fastest; the indices then
pointed at atoms of another image.
---
 source/nblist/include/binLinkedList.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index f27901f..7c99612 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -489,8 +489,13 @@ void Supercell<CoordType>::calc_prim_cell_idx() {
  */
 template <typename CoordType>
 void Supercell<CoordType>::calc_owned_atom_idxs() {
+    // `Structure::make_supercell()` lays the cells out with z running fastest
+    int layout_cell_idx = (
+                (this->prim_cell_idx_xyz[0] * this->scaling_matrix[1] + this->prim_cell_idx_xyz[1])
+                * this->scaling_matrix[2] + this->prim_cell_idx_xyz[2]
+    );
     for (int ii=0; ii<this->prim_structure_info.num_atoms; ii++) {
-        this->owned_atom_idxs[ii] = this->prim_cell_idx * this->prim_structure_info.num_atoms + ii;
+        this->owned_atom_idxs[ii] = layout_cell_idx * this->prim_structure_info.num_atoms + ii;
     }
 }
 
-- 
2.43.0


From 44ac43bae9fff6c27c07ad2019a3e43eadcf922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:21 +0000
Subject: [PATCH 40/81] fix: atoms outside the box are binned inside
 BinLinkedList's arrays

An atom outside the cell, on its upper face, or below its lower face by a
rounding error got a bin index out of range, and heads_lst was written out of
bounds.
---
 source/nblist/include/binLinkedList.h | 44 ++++++++++++++++-----------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 7c99612..077c0a2 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -112,6 +112,8 @@ public:
 
     void _build();
 
+    int _get_bin_idx_along(CoordType cart_coord, int axis) const;
+
     int get_bin_idx(int prim_atom_idx) const;
 
     int get_num_neigh_bins() const;
@@ -828,9 +830,8 @@ void BinLinkedList<CoordType>::_build() {
     int tmp_bin_idx;
     for (int ii=0; ii<this->supercell.get_num_atoms(); ii++) {
         const CoordType* atom_coord = this->supercell.get_structure().get_cart_coords()[ii];
-        tmp_bin_idx_xyz[0] = std::floor( (atom_coord[0] - this->min_limit_xyz[0]) / this->bin_size_xyz[0] );
-        tmp_bin_idx_xyz[1] = std::floor( (atom_coord[1] - this->min_limit_xyz[1]) / this->bin_size_xyz[1] );
-        tmp_bin_idx_xyz[2] = std::floor( (atom_coord[2] - this->min_limit_xyz[2]) / this->bin_size_xyz[2] );
+        for (int jj=0; jj<3; jj++)
+            tmp_bin_idx_xyz[jj] = this->_get_bin_idx_along(atom_coord[jj], jj);
         tmp_bin_idx = (
             tmp_bin_idx_xyz[0] + 
             tmp_bin_idx_xyz[1] * this->num_bin_xyz[0] + 
@@ -842,6 +843,26 @@ void BinLinkedList<CoordType>::_build() {
 }
 
 
+/**
+ * @brief The bin a coordinate falls into along one axis. Atoms outside the box (or on its upper face) belong to the
+ *          outermost bin, which keeps atoms within `rcut` of each other in neighboring bins.
+ * 
+ * @tparam CoordType 
+ * @param cart_coord 
+ * @param axis 
+ * @return int 
+ */
+template <typename CoordType>
+int BinLinkedList<CoordType>::_get_bin_idx_along(CoordType cart_coord, int axis) const {
+    CoordType bin_idx = std::floor( (cart_coord - this->min_limit_xyz[axis]) / this->bin_size_xyz[axis] );
+    if (bin_idx < 0)
+        return 0;
+    if (bin_idx > this->num_bin_xyz[axis] - 1)
+        return this->num_bin_xyz[axis] - 1;
+    return (int)bin_idx;
+}
+
+
 /**
  * @brief 
  *          S1. 找到 prim_atom_idx 在 `center_cell` 中对应的 `atom_idx`
@@ -860,7 +881,7 @@ int BinLinkedList<CoordType>::get_bin_idx(int prim_atom_idx) const {
     // Step 2. 根据 `atom_cart_coord` 计算原子所属的 bin_idx
     int bin_idx_xyz[3];
     for (int ii=0; ii<3; ii++) {
-        bin_idx_xyz[ii] = std::floor( (atom_cart_coord[ii] - this->min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
+        bin_idx_xyz[ii] = this->_get_bin_idx_along(atom_cart_coord[ii], ii);
     }
 
     return (
@@ -908,18 +929,13 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
     // Step 1.1.
     assert(prim_atom_idx < this->supercell.get_prim_num_atoms());
     int atom_idx = prim_atom_idx + this->supercell.get_prim_cell_idx() * this->supercell.get_prim_num_atoms();
-    // Step 1.2. 得到 `atom_cart_coord`, `min_limit_xyz`
+    // Step 1.2. 得到 `atom_cart_coord`
     const CoordType* atom_cart_coord = this->supercell.get_structure().get_cart_coords()[atom_idx];
-    CoordType** limit_xyz = this->supercell.get_structure().get_limit_xyz();
-    CoordType min_limit_xyz[3];
-    min_limit_xyz[0] = limit_xyz[0][0];
-    min_limit_xyz[1] = limit_xyz[1][0];
-    min_limit_xyz[2] = limit_xyz[2][0];
 
     // Step 1.3. 计算 atom_idx 的 bin_idx_xyz[3]
     int bin_idx_xyz[3];
     for (int ii=0; ii<3; ii++)
-        bin_idx_xyz[ii] = std::floor( (atom_cart_coord[ii] - min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
+        bin_idx_xyz[ii] = this->_get_bin_idx_along(atom_cart_coord[ii], ii);
 
     // Step 2. 由 `atom_idx` 的 `bin_idx_xyz[3]` 计算 `neigh_bin_idxs_xyz[num_neigh_bins][3]`
     int num_extened_neigh_bins[3];  // 沿 x,y,z 的正方向有多少个 neigh_bins
@@ -978,12 +994,6 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
         }
     }
 
-    // Step . Free memory
-    for (int ii=0; ii<3; ii++) {
-        free(limit_xyz[ii]);
-    }
-    free(limit_xyz);
-
     return neigh_bin_idxs;
 }
 
-- 
2.43.0


From fa10688a15e9296b417193b2e63ca9639ee9646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:21 +0000
Subject: [PATCH 41/81] fix: neighbours listed several times when a periodic
 axis has few bins

Wrapping the bin indices around visits the same bin repeatedly when the box is
fewer than 2*ceil(rcut/bin)+1 bins wide (mixed periodicity in an oblique cell,
or bins that do not divide the cutoff).
---
 source/nblist/include/binLinkedList.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 077c0a2..91409aa 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -959,14 +959,10 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
                 
                 //printf("shift_index_%d = [%d, %d, %d]\n", neigh_bin_idx4loop, ii, jj, kk);
 
-                // Step 2.2. 处理 pbc (wrap around)
-                for (int pp=0; pp<3; pp++) {
-                    if (this->pbc_xyz[pp] == false) {   // 无周期性
-                        neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp];
-                    } else {
-                        neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = (candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] + this->num_bin_xyz[pp] ) % this->num_bin_xyz[pp];                        
-                    }
-                }
+                // Step 2.2. No wrap around: the supercell already holds every image within `rcut`. 
+                //           Wrapping would visit a bin several times when there are few bins.
+                for (int pp=0; pp<3; pp++)
+                    neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp];
                 //printf("this->num_bins_xyz[%d][3] = [%d, %d, %d]\n", this->num_bin_xyz[0], this->num_bin_xyz[1], this->num_bin_xyz[2]);                
                 //printf("neigh_bin_idxs_xyz[%d][3] = [%d, %d, %d]\n", neigh_bin_idxs_xyz[neigh_bin_idx4loop][0], neigh_bin_idxs_xyz[neigh_bin_idx4loop][1], neigh_bin_idxs_xyz[neigh_bin_idx4loop][2]);
 
-- 
2.43.0


From 10d4bb71f7490658a0a7cd24068465865177f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:56 +0000
Subject: [PATCH 42/81] fix: neighbour lists of structures whose atoms are not
 wrapped into the cell

Two atoms whose fractional coordinates differ by one or more need further
images than ceil(rcut / interplanar distance) of each other; those neighbours
were missing.
---
 source/nblist/include/binLinkedList.h |  8 ++++--
 source/nblist/include/structure.h     | 35 +++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 91409aa..a1ea8d2 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -606,10 +606,11 @@ BinLinkedList<CoordType>::BinLinkedList(Structure<CoordType> structure, CoordTyp
     this->pbc_xyz[1] = pbc_xyz[1];
     this->pbc_xyz[2] = pbc_xyz[2];
     CoordType* prim_interplanar_distances = (CoordType*)structure.get_interplanar_distances();
+    CoordType* prim_frac_spreads = structure.get_frac_spreads();  // >= 1 if atoms are not wrapped into the cell
     int* scaling_matrix = (int*)malloc(sizeof(int) * 3);
     int* extending_matrix = (int*)malloc(sizeof(int) * 3);
     for (int ii=0; ii<3; ii++) {
-        extending_matrix[ii] = std::ceil(rcut / prim_interplanar_distances[ii]);
+        extending_matrix[ii] = std::ceil(rcut / prim_interplanar_distances[ii]) + std::floor(prim_frac_spreads[ii]);
         scaling_matrix[ii] = extending_matrix[ii] * 2 + 1;
         if (this->pbc_xyz[ii] == false) {
             scaling_matrix[ii] = 1;
@@ -635,6 +636,7 @@ BinLinkedList<CoordType>::BinLinkedList(Structure<CoordType> structure, CoordTyp
 
     // Step . Free memory
     free(prim_interplanar_distances);
+    free(prim_frac_spreads);
     free(scaling_matrix);
     free(projected_lengths);
     free(extending_matrix);
@@ -664,10 +666,11 @@ BinLinkedList<CoordType>::BinLinkedList(Structure<CoordType> structure, CoordTyp
     this->pbc_xyz[1] = pbc_xyz[1];
     this->pbc_xyz[2] = pbc_xyz[2];
     CoordType* prim_interplanar_distances = (CoordType*)structure.get_interplanar_distances();
+    CoordType* prim_frac_spreads = structure.get_frac_spreads();  // >= 1 if atoms are not wrapped into the cell
     int* scaling_matrix = (int*)malloc(sizeof(int) * 3);
     int* extending_matrix = (int*)malloc(sizeof(int) * 3);
     for (int ii=0; ii<3; ii++) {
-        extending_matrix[ii] = std::ceil( this->rcut / prim_interplanar_distances[ii] );
+        extending_matrix[ii] = std::ceil( this->rcut / prim_interplanar_distances[ii] ) + std::floor(prim_frac_spreads[ii]);
         scaling_matrix[ii] = extending_matrix[ii] * 2 + 1;
         if (this->pbc_xyz[ii] == false) 
             scaling_matrix[ii] = 1;
@@ -692,6 +695,7 @@ BinLinkedList<CoordType>::BinLinkedList(Structure<CoordType> structure, CoordTyp
 
     // Step . Free memory
     free(prim_interplanar_distances);
+    free(prim_frac_spreads);
     free(scaling_matrix);
     free(extending_matrix);
     free(projected_lengths);
diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index f5f9415..d82b895 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -57,6 +57,8 @@ public:
 
     CoordType* get_interplanar_distances() const;
 
+    CoordType* get_frac_spreads() const;    // [3]: max - min of the fractional coordinates
+
     const CoordType* get_pseudo_origin() const;
 
     CoordType** get_vertexes() const;
@@ -746,6 +748,39 @@ CoordType* Structure<CoordType>::get_interplanar_distances() const {
 }
 
 
+/**
+ * @brief Get how far apart the atoms are along each basis vector, in fractional coordinates.
+ *          It is less than 1 if all atoms are inside the cell.
+ * 
+ * @tparam CoordType 
+ * @return CoordType* 
+ */
+template <typename CoordType>
+CoordType* Structure<CoordType>::get_frac_spreads() const {
+    if (this->num_atoms == 0)
+        return nullptr;
+
+    CoordType* frac_spreads = (CoordType*)malloc(sizeof(CoordType) * 3);
+    for (int ii=0; ii<3; ii++) {
+        CoordType* vec_vertical = vec3Operation::cross(this->basis_vectors[(ii+1)%3], this->basis_vectors[(ii+2)%3]);
+        CoordType volume = vec3Operation::dot(this->basis_vectors[ii], vec_vertical);
+        CoordType min_frac = vec3Operation::dot(this->cart_coords[0], vec_vertical) / volume;
+        CoordType max_frac = min_frac;
+        for (int jj=1; jj<this->num_atoms; jj++) {
+            CoordType frac = vec3Operation::dot(this->cart_coords[jj], vec_vertical) / volume;
+            if (frac < min_frac)
+                min_frac = frac;
+            if (frac > max_frac)
+                max_frac = frac;
+        }
+        frac_spreads[ii] = max_frac - min_frac;
+        free(vec_vertical);
+    }
+
+    return frac_spreads;
+}
+
+
 template <typename CoordType>
 const CoordType* Structure<CoordType>::get_pseudo_origin() const {
     return (const CoordType*)this->pseudo_orgin;
-- 
2.43.0


From bbbafa764a65786f05adf502724e7d4332af3d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:30 +0000
Subject: [PATCH 43/81] fix: firstneigh returned by nblist owns its data

The flag was set on numneigh twice, so every call leaked the index table.
---
 source/nblist/bind/nblist_bind.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 66ba7d4..5aaf6df 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -136,7 +136,7 @@ PyObject* find_info4mlff(
     firstneigh_dims[0] = inum;
     firstneigh_dims[1] = umax_num_neigh_atoms;
     PyObject* firstneigh_py = PyArray_SimpleNewFromData(2, firstneigh_dims, NPY_INT, firstneigh);
-    PyArray_ENABLEFLAGS((PyArrayObject*)numneigh_py, NPY_OWNDATA);
+    PyArray_ENABLEFLAGS((PyArrayObject*)firstneigh_py, NPY_OWNDATA);
     // Step 4.5. relative_coords
     npy_intp* relative_coords_dims = (npy_intp*)malloc(sizeof(npy_intp) * 3);
     relative_coords_dims[0] = inum;
-- 
2.43.0


From be6153fc71202880eac845f964198445ac418c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:30 +0000
Subject: [PATCH 44/81] fix: nblist reads inputs of any dtype and memory layout

The raw buffers were read as C-contiguous float64/int32 whatever they held, so
e.g. int64 species or a transposed lattice gave a wrong neighbour table.
---
 source/nblist/bind/nblist_bind.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 5aaf6df..a788368 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -52,9 +52,19 @@ PyObject* find_info4mlff(
 
     // Step 1. Init matersdk::Structure<double>
     // Step 1.1. 
-    PyArrayObject* lattice_py_array = (PyArrayObject*)lattice_py;
-    PyArrayObject* atomic_numbers_py_array = (PyArrayObject*)atomic_numbers_py;
-    PyArrayObject* frac_coords_py_array = (PyArrayObject*)frac_coords_py;
+    //          Convert to C-contiguous float64 / int32 whatever the dtype and memory layout of the inputs
+    PyArrayObject* lattice_py_array = (PyArrayObject*)PyArray_FROMANY(
+            lattice_py, NPY_DOUBLE, 2, 2, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_FORCECAST);
+    PyArrayObject* atomic_numbers_py_array = (PyArrayObject*)PyArray_FROMANY(
+            atomic_numbers_py, NPY_INT, 1, 1, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_FORCECAST);
+    PyArrayObject* frac_coords_py_array = (PyArrayObject*)PyArray_FROMANY(
+            frac_coords_py, NPY_DOUBLE, 2, 2, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_FORCECAST);
+    if (lattice_py_array == NULL || atomic_numbers_py_array == NULL || frac_coords_py_array == NULL) {
+        Py_XDECREF(lattice_py_array);
+        Py_XDECREF(atomic_numbers_py_array);
+        Py_XDECREF(frac_coords_py_array);
+        return NULL;
+    }
     int num_atoms = (int)PyArray_SHAPE(atomic_numbers_py_array)[0];  // npy_intp 占8个字节
     int umax_num_neigh_atoms = (int)PyLong_AsLong(umax_num_neigh_atoms_py);
 
@@ -75,6 +85,9 @@ PyObject* find_info4mlff(
         frac_coords[ii][1] = frac_coords_ptr[ii*3 + 1];
         frac_coords[ii][2] = frac_coords_ptr[ii*3 + 2];
     }
+    Py_DECREF(lattice_py_array);
+    Py_DECREF(atomic_numbers_py_array);
+    Py_DECREF(frac_coords_py_array);
     
     // Step 1.3. You must init it with fractional/cartesian coordinates
     bool is_cart_coord = (PyObject_IsTrue(is_cart_coord_py));
-- 
2.43.0


From 33d8ab41e02e94ef8e4025d0f9690a3870acc5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:30 +0000
Subject: [PATCH 45/81] fix: nblist rejects a neighbour limit that is too small

With umax_num_neigh_atoms below the number of neighbours the tables were
written past their end.
---
 source/nblist/bind/nblist_bind.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index a788368..1ef2e46 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -112,6 +112,15 @@ PyObject* find_info4mlff(
     // Step 2.2. Build 
     matersdk::NeighborList<double> neighbor_list(structure, rcut, pbc_xyz, sort);
 
+    // Step 2.3. The tables must be able to hold all the neighbors
+    if (neighbor_list.get_max_num_neigh_atoms() > umax_num_neigh_atoms) {
+        PyErr_Format(
+            PyExc_ValueError,
+            "umax_num_neigh_atoms (%d) is smaller than the largest number of neighbors (%d).",
+            umax_num_neigh_atoms, neighbor_list.get_max_num_neigh_atoms());
+        return NULL;
+    }
+
     // Step 3. Call matersdk::NeighborList<double>::find_info4mlff()
     int inum = (int)num_atoms;
     int* ilist = (int*)malloc(sizeof(int) * inum);
-- 
2.43.0


From 8abeb69b44fe3a58385f8aa2b3ff90c3abe9391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:13 +0000
Subject: [PATCH 46/81] fix: TildeR copy constructor allocated 4 bytes for
 lists of any length

---
 source/descriptor/deepmd/include/se.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index d7d7b9a..fa91d85 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1485,12 +1485,12 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
     this->neighbor_list = rhs.neighbor_list;
     
     this->num_center_atomic_numbers = rhs.num_center_atomic_numbers;
-    this->center_atomic_numbers_lst = (int*)malloc(sizeof(this->num_center_atomic_numbers));
+    this->center_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_center_atomic_numbers);
     for (int ii=0; ii<this->num_center_atomic_numbers; ii++)
         this->center_atomic_numbers_lst[ii] = rhs.center_atomic_numbers_lst[ii];
     
     this->num_neigh_atomic_numbers = rhs.num_neigh_atomic_numbers;
-    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(this->num_neigh_atomic_numbers));
+    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_neigh_atomic_numbers);
     for (int ii=0; ii<this->num_neigh_atomic_numbers; ii++)
         this->neigh_atomic_numbers_lst[ii] = rhs.neigh_atomic_numbers_lst[ii];
 
-- 
2.43.0


From 4b064c565cdc555f0cd5f14b95c72d9ac2e5b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:13 +0000
Subject: [PATCH 47/81] fix: self-assignment of TildeR read freed lists

---
 source/descriptor/deepmd/include/se.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index fa91d85..637bb4d 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1516,6 +1516,9 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
  */
 template <typename CoordType>
 TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_center_atomic_numbers != 0) {
         free(this->center_atomic_numbers_lst);
         free(this->num_center_atoms_lst);
-- 
2.43.0


From b279cec6b26bb414c4e1cbe94390425ab9d4c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:13 +0000
Subject: [PATCH 48/81] fix: PairTildeR wrote past its arrays when
 num_neigh_atoms is too small

---
 source/descriptor/deepmd/include/se.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index 637bb4d..df218dd 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -3,6 +3,7 @@
 
 
 #include <stdlib.h>
+#include <stdexcept>
 
 #include "../../../nblist/include/structure.h"
 #include "../../../nblist/include/neighborList.h"
@@ -752,6 +753,10 @@ const int PairTildeR<CoordType>::get_max_num_neigh_atoms() const {
  */
 template <typename CoordType>
 CoordType*** PairTildeR<CoordType>::generate() const {
+    // The zero-padding size must be able to hold all neighbors
+    if (this->num_neigh_atoms < this->get_max_num_neigh_atoms())
+        throw std::invalid_argument("PairTildeR: num_neigh_atoms is smaller than the number of neighbors.");
+
     // Step 1. 
     // Step 1.1. $\tilde{R}$ = (s(r_{ji}), x_{ji}, y_{ji}, z_{ji})
     //  = (tilde_s_value, tilde_x_value, tilde_y_value, tilde_z_value)
@@ -976,6 +981,10 @@ CoordType*** PairTildeR<CoordType>::generate(
  */
 template <typename CoordType>
 CoordType**** PairTildeR<CoordType>::deriv() const {
+    // The zero-padding size must be able to hold all neighbors
+    if (this->num_neigh_atoms < this->get_max_num_neigh_atoms())
+        throw std::invalid_argument("PairTildeR: num_neigh_atoms is smaller than the number of neighbors.");
+
     // Step 1. 初始化一些必要的变量
     // Step 1.1. 
     int prim_cell_idx = this->neighbor_list.get_binLinkedList().get_supercell().get_prim_cell_idx();
-- 
2.43.0


From 727c7ea4a4f4c54f49f9aadaa13e4d9abeba072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:13 +0000
Subject: [PATCH 49/81] fix: Se4pw and EnvMatrix spilled into other blocks when
 a type has more neighbors than its limit

---
 source/descriptor/deepmd/include/envMatrix.h |  2 ++
 source/descriptor/deepmd/include/se.h        | 37 ++++++++++++++++++++
 source/descriptor/deepmd/include/se4pw.h     |  4 +++
 3 files changed, 43 insertions(+)

diff --git a/source/descriptor/deepmd/include/envMatrix.h b/source/descriptor/deepmd/include/envMatrix.h
index e68de0a..00772b4 100644
--- a/source/descriptor/deepmd/include/envMatrix.h
+++ b/source/descriptor/deepmd/include/envMatrix.h
@@ -58,6 +58,8 @@ void EnvMatrix<CoordType>::find_value_deriv(
         CoordType rcut,
         CoordType rcut_smooth)
 {   
+    check_num_neigh_atoms(inum, numneigh, firstneigh, types, ntypes, umax_num_neigh_atoms_lst);
+
     // Step 1. 
     // Step 1.1. Init tilde_r, tilde_r_deriv
     int umax_num_neigh_atoms = 0;
diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index df218dd..4d3c14a 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -4,6 +4,7 @@
 
 #include <stdlib.h>
 #include <stdexcept>
+#include <vector>
 
 #include "../../../nblist/include/structure.h"
 #include "../../../nblist/include/neighborList.h"
@@ -151,6 +152,42 @@ CoordType recip(const CoordType& value) {
 }
 
 
+/**
+ * @brief Check that the neighbors of all center atoms fit in the blocks of their types.
+ * 
+ * @param inum 
+ * @param numneigh : len = inum
+ * @param firstneigh : len = inum * sum(num_neigh_atoms_lst)
+ * @param types 
+ * @param ntypes 
+ * @param num_neigh_atoms_lst : len = ntypes
+ */
+inline void check_num_neigh_atoms(
+        int inum,
+        const int* numneigh,
+        const int* firstneigh,
+        const int* types,
+        int ntypes,
+        const int* num_neigh_atoms_lst)
+{
+    int tot_num_neigh_atoms = 0;
+    for (int ii=0; ii<ntypes; ii++)
+        tot_num_neigh_atoms += num_neigh_atoms_lst[ii];
+
+    std::vector<int> counts(ntypes);
+    for (int ii=0; ii<inum; ii++) {
+        if (numneigh[ii] > tot_num_neigh_atoms)
+            throw std::invalid_argument("DeepPot-SE: more neighbors than sum(num_neigh_atoms_lst).");
+        counts.assign(ntypes, 0);
+        for (int jj=0; jj<numneigh[ii]; jj++) {
+            int type = types[firstneigh[ii*tot_num_neigh_atoms + jj]];
+            if (++counts[type] > num_neigh_atoms_lst[type])
+                throw std::invalid_argument("DeepPot-SE: more neighbors of one type than num_neigh_atoms_lst.");
+        }
+    }
+}
+
+
 /**
  * @brief 指定 `center_atomic_number` 和 `neigh_atomic_number`，计算 DeepPot-SE 的 feature
  * 
diff --git a/source/descriptor/deepmd/include/se4pw.h b/source/descriptor/deepmd/include/se4pw.h
index 9da95c0..0e4b653 100644
--- a/source/descriptor/deepmd/include/se4pw.h
+++ b/source/descriptor/deepmd/include/se4pw.h
@@ -56,6 +56,8 @@ void Se4pw<CoordType>::generate(
         CoordType rcut,
         CoordType rcut_smooth)
 {
+    check_num_neigh_atoms(inum, numneigh, firstneigh, types, ntypes, num_neigh_atoms_lst);
+
     // Step 1.
     // Step 1.1. $\tilde{R}$ = (s(r_{ji}), x_{ji}, y_{ji}, z_{ji})
     //  = (tilde_s_value, tilde_x_value, tilde_y_value, tilde_z_value)
@@ -221,6 +223,8 @@ void Se4pw<CoordType>::get_prim_indices_from_matersdk(
         int ntypes,
         int* num_neigh_atoms_lst)
 {
+    check_num_neigh_atoms(inum, numneigh, firstneigh, types, ntypes, num_neigh_atoms_lst);
+
     // Step 1. 
     int center_atom_idx;
     int neigh_atom_idx;
-- 
2.43.0


From ac4df4398dc2cdc2eab7ead485f3062c8e843324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:40 +0000
Subject: [PATCH 50/81] fix: MtpMCoeffPair and MtpMCoeffPairCombs assignments
 return *this

---
 source/descriptor/mtp/src/mtpLevel.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 7838d2f..13f60b0 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -45,6 +45,7 @@ MtpMCoeffPair& MtpMCoeffPair::operator=(const MtpMCoeffPair& rhs)
 {
     this->_coeff_pair = rhs._coeff_pair;
     this->_calc_level();
+    return *this;
 }
 
 void MtpMCoeffPair::_calc_level() 
@@ -97,6 +98,7 @@ MtpMCoeffPairCombs& MtpMCoeffPairCombs::operator=(const MtpMCoeffPairCombs& rhs)
 {
     this->_max_level = rhs._max_level;
     this->_coeff_pair_combs = rhs._coeff_pair_combs;
+    return *this;
 }
 
 /**
-- 
2.43.0


From c56e598a9c17e279fbe1aee373c32edd39d2add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:40 +0000
Subject: [PATCH 51/81] fix: MtpMCoeffPairCombs::operator[] did not compile

---
 source/descriptor/mtp/include/mtpLevel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/descriptor/mtp/include/mtpLevel.h b/source/descriptor/mtp/include/mtpLevel.h
index 6619da2..1072be9 100644
--- a/source/descriptor/mtp/include/mtpLevel.h
+++ b/source/descriptor/mtp/include/mtpLevel.h
@@ -74,7 +74,7 @@ public:
     template <typename Arg>
     decltype(auto) operator[](Arg&& arg)
     {
-        return this->_coeff_pair_combs[std::forward(arg)];
+        return this->_coeff_pair_combs[std::forward<Arg>(arg)];
     }
 
     void show() const;
-- 
2.43.0


From 6d4c4ffccfc1c1be8e7993bf51fefd79193aa4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:27 +0000
Subject: [PATCH 52/81] fix: MTP basis listed combinations of pairs with equal
 levels twice

---
 source/descriptor/mtp/src/mtpLevel.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 13f60b0..7160487 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -148,8 +148,16 @@ std::vector<std::vector<MtpMCoeffPair>> MtpMCoeffPairCombs::get_contracted_combs
 {
     std::vector<std::vector<MtpMCoeffPair>> coeff_pair_combs_contracted;
     coeff_pair_combs_contracted.clear();
+    // `get_all_schemes4lev` reaches pairs of equal level ([0, 4] and [1, 0]) in either order.
+    std::set<std::vector<std::pair<int, int>>> combs_set;
     for (int ii=0; ii<coeff_pair_combs.size(); ii++) {
         std::vector<MtpMCoeffPair> tmp_coeff_pair_comb = coeff_pair_combs[ii];
+        std::vector<std::pair<int, int>> tmp_sorted_comb;
+        for (const MtpMCoeffPair& tmp_cp : tmp_coeff_pair_comb)
+            tmp_sorted_comb.push_back(tmp_cp.coeff_pair());
+        std::sort(tmp_sorted_comb.begin(), tmp_sorted_comb.end());
+        if (!combs_set.insert(tmp_sorted_comb).second)
+            continue;
         if (tmp_coeff_pair_comb.size() == 0)
             continue;
         else if (tmp_coeff_pair_comb.size() == 1) {
-- 
2.43.0


From 9c9ad3add9b3b2a99a9bc51dcf968b43cd4e05b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:27 +0000
Subject: [PATCH 53/81] fix: Combinations::remove_duplicates kept duplicates,
 dropped unique combinations and read out of range on the empty one

---
 source/descriptor/mtp/include/level.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/source/descriptor/mtp/include/level.h b/source/descriptor/mtp/include/level.h
index 1a86a03..32d075c 100644
--- a/source/descriptor/mtp/include/level.h
+++ b/source/descriptor/mtp/include/level.h
@@ -5,6 +5,7 @@
 #include <vector>
 #include <utility>
 #include <algorithm>
+#include <set>
 #include <unordered_map>
 #include <cmath>
 
@@ -169,19 +170,12 @@ void Combinations::remove_duplicates() {
     std::vector<std::vector<std::pair<int, int>>> new_mjus_njus_lst;
     new_mjus_njus_lst.clear();
 
+    std::set<std::vector<std::pair<int, int>>> combinations_set;
     for (int ii=0; ii<this->get_num_combinations(); ii++) {
-        for (int jj=0; jj<this->mjus_njus_lst[ii].size()-1; jj++) {
-            int level_front = Combinations::get_level(
-                                    this->mjus_njus_lst[ii][jj].first, 
-                                    this->mjus_njus_lst[ii][jj].second);
-            int level_behind = Combinations::get_level(
-                                    this->mjus_njus_lst[ii][jj+1].first,
-                                    this->mjus_njus_lst[ii][jj+1].second);
-                
-                if (level_front <= level_behind) {
-                    new_mjus_njus_lst.push_back(this->mjus_njus_lst[ii]);
-                }
-        }
+        std::vector<std::pair<int, int>> tmp_sorted_combination = this->mjus_njus_lst[ii];
+        std::sort(tmp_sorted_combination.begin(), tmp_sorted_combination.end());
+        if (combinations_set.insert(tmp_sorted_combination).second)
+            new_mjus_njus_lst.push_back(this->mjus_njus_lst[ii]);
     }
 
     // 重新为 `this->mjus_njus_lst` 赋值
-- 
2.43.0


From d27b2a7b9a3cae3a510428d03652ec814b0d83e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:27 +0000
Subject: [PATCH 54/81] fix: MTPLevel enumerated the empty combination and
 missed those with the largest number of moments

---
 source/descriptor/mtp/include/level.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/descriptor/mtp/include/level.h b/source/descriptor/mtp/include/level.h
index 32d075c..f7c87d0 100644
--- a/source/descriptor/mtp/include/level.h
+++ b/source/descriptor/mtp/include/level.h
@@ -343,7 +343,7 @@ void MTPLevel::calc_redundant_combinations(
     int max_level,
     std::vector<std::pair<int, int>>& combination)
 {
-    for (int ii=0; ii<this->max_num_M; ii++) {
+    for (int ii=1; ii<=this->max_num_M; ii++) {
         int level = 0;
         std::vector<std::pair<int, int>> combination;
         combination.clear();
-- 
2.43.0


From 8a27d84698faca0bb5a343f045da44955c8b3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:27 +0000
Subject: [PATCH 55/81] fix: assignments of ChebyshevPoly and MtpQ return *this

---
 source/descriptor/mtp/include/mtpMRadial.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 86a3f2d..4970972 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -370,6 +370,7 @@ ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(ChebyshevPoly&& rh
         rhs.deriv2xi = nullptr;
         rhs.deriv2r = nullptr;
     }    
+    return *this;
 }
 
 template <typename CoordType>
@@ -522,6 +523,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
         this->result[ii] = rhs.result[ii];
         this->deriv2r[ii] = rhs.deriv2r[ii];
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -545,6 +547,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(MtpQ&& rhs)
         rhs.result = nullptr;
         rhs.deriv2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
-- 
2.43.0


From a996e83faab80df74a935709ce904589f4b08747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:27 +0000
Subject: [PATCH 56/81] fix: a default-constructed MtpQ freed uninitialised
 pointers

---
 source/descriptor/mtp/include/mtpMRadial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 4970972..ff4b511 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -122,8 +122,8 @@ private:
     int size_ = 0;
     MtpSwitchFunc2<CoordType> switch_func2;
     ChebyshevPoly<CoordType> chebyshev;
-    CoordType* result;
-    CoordType* deriv2r;
+    CoordType* result = nullptr;
+    CoordType* deriv2r = nullptr;
 };  // class : MtpQ
 
 
-- 
2.43.0


From 099ab184252c504ca6761266dd319be913ee650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:27 +0000
Subject: [PATCH 57/81] fix: self-assignment of ChebyshevPoly and MtpQ lost
 their values

---
 source/descriptor/mtp/include/mtpMRadial.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index ff4b511..a0ba7be 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -319,6 +319,8 @@ ChebyshevPoly<CoordType>::~ChebyshevPoly()
 template <typename CoordType>
 ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(const ChebyshevPoly& rhs)
 {
+    if (this == &rhs)
+        return *this;
     if (this->size_ != 0) {
         this->size_ = 0;
         this->rcut = 0;
@@ -509,6 +511,8 @@ MtpQ<CoordType>::~MtpQ()
 template <typename CoordType>
 MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
 {
+    if (this == &rhs)
+        return *this;
     if (this->size_ != 0) {
         this->size_ = 0;
         free(this->result);
-- 
2.43.0


From 1edf9d08530fc9ad71d422b087ab90e0837cbfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:27 +0000
Subject: [PATCH 58/81] fix: assignments of RB_Chebyshev and RQ_Chebyshev
 return *this

---
 source/descriptor/mtpr/include/basis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 15b33c3..d808c1e 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -250,6 +250,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev&
 
         }
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -279,6 +280,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(RB_Chebyshev&& rhs)
         rhs._ders2uu = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -468,6 +470,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
         this->_vals = nullptr;
         this->_ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -498,6 +501,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(RQ_Chebyshev&& rhs)
         rhs._vals = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
-- 
2.43.0


From 7dbdd42e02cdb3db0372ead6f25dd6d540b2eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:27 +0000
Subject: [PATCH 59/81] fix: RB_Chebyshev and RQ_Chebyshev: self-assignment,
 and assigning an empty basis freed twice

---
 source/descriptor/mtpr/include/basis.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index d808c1e..a253747 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -226,10 +226,15 @@ RB_Chebyshev<CoordType>::RB_Chebyshev(RB_Chebyshev&& rhs)
 template <typename CoordType>
 RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
     if (this->_size != 0) {
         free(this->_vals);
         free(this->_ders2uu);
         free(this->_ders2r);
+        this->_vals = nullptr;
+        this->_ders2uu = nullptr;
+        this->_ders2r = nullptr;
         this->_size = 0;
         this->_rmax = 0.0;
         this->_rmin = 0.0;
@@ -444,6 +449,8 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(RQ_Chebyshev&& rhs)
 template <typename CoordType>
 RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
     if (this->_size != 0) {
         delete this->_rb_ptr;
         free(this->_vals);
-- 
2.43.0


From ff346773381920e191e8bc2aadbcdb3a11c90a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:27 +0000
Subject: [PATCH 60/81] fix: copying an empty RQ_Chebyshev dereferenced a null
 pointer

---
 source/descriptor/mtpr/include/basis.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index a253747..98ceb34 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -411,7 +411,8 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(const RQ_Chebyshev& rhs)
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
     this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    if (rhs._rb_ptr != nullptr)
+        *(this->_rb_ptr) = *(rhs._rb_ptr);
     if (this->_size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
@@ -465,7 +466,8 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
     this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    if (rhs._rb_ptr != nullptr)
+        *(this->_rb_ptr) = *(rhs._rb_ptr);
     if (rhs._size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
-- 
2.43.0


From 4399b382a002e411709ba9d591fe23c77328bbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:27 +0000
Subject: [PATCH 61/81] fix: move assignment of MtpParam took alpha_index_basic
 for alpha_index_times and returned nothing

---
 source/descriptor/mtpr/src/mtpParam.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 7e6ac14..a0c2f78 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -243,7 +243,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
         this->_alpha_index_basic = rhs._alpha_index_basic;
         this->_alpha_index_times_count = rhs._alpha_index_times_count;
-        this->_alpha_index_times = rhs._alpha_index_basic;
+        this->_alpha_index_times = rhs._alpha_index_times;
         this->_alpha_scalar_moments = rhs._alpha_scalar_moments;
         this->_alpha_moment_mapping = rhs._alpha_moment_mapping;
 
@@ -255,7 +255,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         rhs._alpha_scalar_moments = 0;
         rhs._alpha_moment_mapping = nullptr;
     }
-
+    return *this;
 }
 
 MtpParam::~MtpParam()
-- 
2.43.0


From df51797db8940dbfb2895a6e1545a21c680dfcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:27 +0000
Subject: [PATCH 62/81] fix: MtpParam copy assignment: self-assignment, and an
 empty table freed twice

---
 source/descriptor/mtpr/src/mtpParam.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index a0c2f78..15ca6cf 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -177,17 +177,22 @@ MtpParam::MtpParam(MtpParam&& rhs)
 
 MtpParam& MtpParam::operator=(const MtpParam& rhs)
 {
+    if (this == &rhs)
+        return *this;
     this->_alpha_moments_count = 0;
     if (this->_alpha_index_basic_count != 0) {
         free(this->_alpha_index_basic);
+        this->_alpha_index_basic = nullptr;
         this->_alpha_index_basic_count = 0;
     }
     if (this->_alpha_index_times_count != 0) {
         free(this->_alpha_index_times);
+        this->_alpha_index_times = nullptr;
         this->_alpha_index_times_count = 0;
     }
     if (this->_alpha_scalar_moments != 0) {
         free(this->_alpha_moment_mapping);
+        this->_alpha_moment_mapping = nullptr;
         this->_alpha_scalar_moments = 0;
     }
 
-- 
2.43.0


From 52e43df02134e8eba75dff89579e81841f9f61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:50 +0000
Subject: [PATCH 63/81] fix: MtpParam rejects negative table sizes

---
 source/descriptor/mtpr/src/mtpParam.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 15ca6cf..6bf9acb 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -53,7 +53,7 @@ void MtpParam::_load(const std::string& filename)
         MtpError("Cannot read alpha_index_basic_count.");
     ifs.ignore(2);
     ifs >> this->_alpha_index_basic_count;
-    if (ifs.fail())
+    if (ifs.fail() || this->_alpha_index_basic_count < 0)
         MtpError("Cannot read alpha_index_basic_count.");
     
     // alpha_index_basic
@@ -80,7 +80,7 @@ void MtpParam::_load(const std::string& filename)
         MtpError("Cannot read alpha_index_times_count.");
     ifs.ignore(2);
     ifs >> this->_alpha_index_times_count;
-    if (ifs.fail())
+    if (ifs.fail() || this->_alpha_index_times_count < 0)
         MtpError("Cannot read alpha_index_times_count.");
 
     // alpha_index_times
@@ -109,7 +109,7 @@ void MtpParam::_load(const std::string& filename)
         MtpError("Cannot read alpha_scalar_moments.");
     ifs.ignore(2);
     ifs >> this->_alpha_scalar_moments;
-    if (ifs.fail())
+    if (ifs.fail() || this->_alpha_scalar_moments < 0)
         MtpError("Cannot read alpha_scalar_moments.");
     
     // alpha_moment_mapping
-- 
2.43.0


From 9a9ac7415f42a9affadb3421148eafeeba584bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:30 +0000
Subject: [PATCH 64/81] fix: MtpBModule accepts the documented [nbatches,
 natoms] types tensor

---
 source/descriptor/mtp/src/mtpBModule.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/descriptor/mtp/src/mtpBModule.cc b/source/descriptor/mtp/src/mtpBModule.cc
index ad55c7c..fe50fc8 100644
--- a/source/descriptor/mtp/src/mtpBModule.cc
+++ b/source/descriptor/mtp/src/mtpBModule.cc
@@ -50,6 +50,8 @@ at::Tensor MtpBModuleImpl::forward(
     int64_t tmp_iidx;
 
     for (int ii=0; ii<nbatches; ii++) {
+        // `types_tensor`.sizes() = [nbatches, ncenters + nghost], or [ncenters + nghost] if it is shared by all batches
+        at::Tensor tmp_types_tensor = (types_tensor.dim() == 2) ? types_tensor[ii] : types_tensor;
         for (int jj=0; jj<ncenters; jj++) {
             tmp_iidx = ilist_ptr[ii*ncenters + jj];
             for (int kk=0; kk<nbasis; kk++) {
@@ -63,7 +65,7 @@ at::Tensor MtpBModuleImpl::forward(
                         tmp_nu,
                         tmp_iidx,
                         firstneigh_tensor[ii][jj],
-                        types_tensor,
+                        tmp_types_tensor,
                         rcs_tensor[ii][jj]);
                     int64_t dim1 = partial_mtp_b_tensor.dim();
                     int64_t dim2 = tmp_mtp_m_tensor.dim();
-- 
2.43.0


From d839586f27365972ab7322d7c1a582b699daf187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:13 +0000
Subject: [PATCH 65/81] fix: moment tensor operators read non-contiguous
 tensors correctly

---
 source/descriptor/mtp/src/mtpBModule.cc   | 4 ++--
 source/descriptor/mtp/src/mtpMModule.cc   | 3 ++-
 source/descriptor/mtp/src/mtpMRadialOp.cc | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/descriptor/mtp/src/mtpBModule.cc b/source/descriptor/mtp/src/mtpBModule.cc
index fe50fc8..cf60489 100644
--- a/source/descriptor/mtp/src/mtpBModule.cc
+++ b/source/descriptor/mtp/src/mtpBModule.cc
@@ -39,8 +39,8 @@ at::Tensor MtpBModuleImpl::forward(
     c10::TensorOptions options = c10::TensorOptions()
         .dtype(rcs_tensor.scalar_type())
         .device(rcs_tensor.device());
-    int64_t* ilist_ptr = ilist_tensor.data_ptr<int64_t>();
-    int64_t* firstneigh_ptr = firstneigh_tensor.data_ptr<int64_t>();
+    at::Tensor ilist_contiguous = ilist_tensor.contiguous();
+    int64_t* ilist_ptr = ilist_contiguous.data_ptr<int64_t>();
     int64_t nbatches = ilist_tensor.sizes()[0];
     int64_t ncenters = ilist_tensor.sizes()[1];
     int64_t nbasis = this->_coeff_pair_combs.size();
diff --git a/source/descriptor/mtp/src/mtpMModule.cc b/source/descriptor/mtp/src/mtpMModule.cc
index ba11e0a..bdbdf3b 100644
--- a/source/descriptor/mtp/src/mtpMModule.cc
+++ b/source/descriptor/mtp/src/mtpMModule.cc
@@ -55,7 +55,8 @@ at::Tensor MtpMModuleImpl::forward(
     at::Tensor imtp_m_tensor = at::zeros(imtp_m_tensor_shape, options)
         .requires_grad_(false);
     int64_t z_i = types[iidx].item<int64_t>();
-    int64_t* ifirstneigh = ifirstneigh_tensor.data_ptr<int64_t>();
+    at::Tensor ifirstneigh_contiguous = ifirstneigh_tensor.contiguous();
+    int64_t* ifirstneigh = ifirstneigh_contiguous.data_ptr<int64_t>();
     at::Tensor imtp_q_tensor = MtpQOp(   // .shape = [nneighs, size]
         this->size,
         this->rcuts_tensor,
diff --git a/source/descriptor/mtp/src/mtpMRadialOp.cc b/source/descriptor/mtp/src/mtpMRadialOp.cc
index 7d7f04d..d031ae6 100644
--- a/source/descriptor/mtp/src/mtpMRadialOp.cc
+++ b/source/descriptor/mtp/src/mtpMRadialOp.cc
@@ -23,8 +23,9 @@ torch::autograd::variable_list MtpQFunction::forward(
     std::vector<int64_t> deriv2xyz_shape = {nneighs, size, 3};
     at::Tensor result_tensor = at::zeros(result_shape, options);
     at::Tensor deriv2xyz_tensor = at::zeros(deriv2xyz_shape, options);
+    at::Tensor rcs_contiguous = rcs_tensor.contiguous();
     if (options.dtype() == torch::kFloat32) {
-        float* rcs = rcs_tensor.data_ptr<float>();
+        float* rcs = rcs_contiguous.data_ptr<float>();
         MtpQ<float> mtp_q(
             size,
             rcuts_tensor[0].item<float>(),
@@ -54,7 +55,7 @@ torch::autograd::variable_list MtpQFunction::forward(
         }
         
     } else {
-        double* rcs = rcs_tensor.data_ptr<double>();
+        double* rcs = rcs_contiguous.data_ptr<double>();
         MtpQ<double> mtp_q(
             size,
             rcuts_tensor[0].item<double>(),
-- 
2.43.0


From b5975b3a9f80186bc6c10251b1a0e4b0aff864ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:08 +0000
Subject: [PATCH 66/81] fix: environment matrix operators read non-contiguous
 tensors correctly

---
 source/descriptor/deepmd/src/envMatrixOp.cc | 21 +++++---
 source/descriptor/deepmd/src/se4pw_op.cc    | 59 +++++++++++----------
 2 files changed, 45 insertions(+), 35 deletions(-)

diff --git a/source/descriptor/deepmd/src/envMatrixOp.cc b/source/descriptor/deepmd/src/envMatrixOp.cc
index 0145ddc..7f7f194 100644
--- a/source/descriptor/deepmd/src/envMatrixOp.cc
+++ b/source/descriptor/deepmd/src/envMatrixOp.cc
@@ -76,17 +76,24 @@ torch::autograd::variable_list EnvMatrixFunction::forward(
     }
 
     // Step 3. find tilde_r_tensor, tilde_r_deriv_tensor
+    // Note: `data_ptr()` ignores strides
+    at::Tensor ilist_contiguous = ilist_tensor.contiguous();
+    at::Tensor numneigh_contiguous = numneigh_tensor.contiguous();
+    at::Tensor firstneigh_contiguous = firstneigh_tensor.contiguous();
+    at::Tensor relative_coords_contiguous = relative_coords_tensor.contiguous();
+    at::Tensor types_contiguous = types_tensor.contiguous();
+    at::Tensor umax_num_neigh_atoms_lst_contiguous = umax_num_neigh_atoms_lst_tensor.contiguous();
     for (int ii=0; ii<batch_size; ii++) {
-        int* ilist = ilist_tensor[ii].data_ptr<int>();
-        int* numneigh = numneigh_tensor[ii].data_ptr<int>();
-        int* firstneigh = firstneigh_tensor[ii].data_ptr<int>();
-        int* types = types_tensor[ii].data_ptr<int>();
-        int* umax_num_neigh_atoms_lst = umax_num_neigh_atoms_lst_tensor[ii].data_ptr<int>();
+        int* ilist = ilist_contiguous[ii].data_ptr<int>();
+        int* numneigh = numneigh_contiguous[ii].data_ptr<int>();
+        int* firstneigh = firstneigh_contiguous[ii].data_ptr<int>();
+        int* types = types_contiguous[ii].data_ptr<int>();
+        int* umax_num_neigh_atoms_lst = umax_num_neigh_atoms_lst_contiguous[ii].data_ptr<int>();
         
         if (relative_coords_tensor.scalar_type() == torch::kFloat32) {
             float* tilde_r = tilde_r_tensor[ii].data_ptr<float>();
             float* tilde_r_deriv = tilde_r_deriv_tensor[ii].data_ptr<float>();
-            float* relative_coords = relative_coords_tensor[ii].data_ptr<float>();
+            float* relative_coords = relative_coords_contiguous[ii].data_ptr<float>();
             EnvMatrix<float>::find_value_deriv(
                 tilde_r,
                 tilde_r_deriv,
@@ -103,7 +110,7 @@ torch::autograd::variable_list EnvMatrixFunction::forward(
         } else {
             double* tilde_r = tilde_r_tensor[ii].data_ptr<double>();
             double* tilde_r_deriv = tilde_r_deriv_tensor[ii].data_ptr<double>();
-            double* relative_coords = relative_coords_tensor[ii].data_ptr<double>();
+            double* relative_coords = relative_coords_contiguous[ii].data_ptr<double>();
             EnvMatrix<double>::find_value_deriv(
                 tilde_r,
                 tilde_r_deriv,
diff --git a/source/descriptor/deepmd/src/se4pw_op.cc b/source/descriptor/deepmd/src/se4pw_op.cc
index 6caf014..a7cca08 100644
--- a/source/descriptor/deepmd/src/se4pw_op.cc
+++ b/source/descriptor/deepmd/src/se4pw_op.cc
@@ -45,12 +45,14 @@ torch::autograd::variable_list Se4pwOp::forward(
     c10::TensorOptions tensor_options = c10::TensorOptions().device(device).dtype(dtype);
     c10::ScalarType int_dtype = ilist.scalar_type();
     
-    ilist.to(int_dtype);
-    numneigh.to(int_dtype);
-    firstneigh.to(int_dtype);
-    types.to(int_dtype);
-    num_neigh_atoms_lst.to(int_dtype);
-    
+    // Note: `data_ptr()` ignores strides
+    at::Tensor ilist_contiguous = ilist.contiguous();
+    at::Tensor numneigh_contiguous = numneigh.contiguous();
+    at::Tensor firstneigh_contiguous = firstneigh.contiguous();
+    at::Tensor types_contiguous = types.contiguous();
+    at::Tensor num_neigh_atoms_lst_contiguous = num_neigh_atoms_lst.contiguous();
+    at::Tensor x_contiguous = x.contiguous();
+
     int tot_num_neigh_atoms = num_neigh_atoms_lst.sum().item<int>();
     at::Tensor tilde_r = at::zeros({batch_size, inum, tot_num_neigh_atoms, 4}, tensor_options);
     at::Tensor tilde_r_deriv = at::zeros({batch_size, inum, tot_num_neigh_atoms, 4, 3}, tensor_options);
@@ -67,13 +69,13 @@ torch::autograd::variable_list Se4pwOp::forward(
                     tilde_r_deriv_ptr,
                     relative_coords_ptr,
                     inum,
-                    ilist[ii].data_ptr<int>(),
-                    numneigh[ii].data_ptr<int>(),
-                    firstneigh[ii].data_ptr<int>(),
-                    x[ii].data_ptr<float>(),
-                    types[ii].data_ptr<int>(),
+                    ilist_contiguous[ii].data_ptr<int>(),
+                    numneigh_contiguous[ii].data_ptr<int>(),
+                    firstneigh_contiguous[ii].data_ptr<int>(),
+                    x_contiguous[ii].data_ptr<float>(),
+                    types_contiguous[ii].data_ptr<int>(),
                     ntypes,
-                    num_neigh_atoms_lst.data_ptr<int>(),
+                    num_neigh_atoms_lst_contiguous.data_ptr<int>(),
                     (float)rcut,
                     (float)rcut_smooth);
         }
@@ -88,13 +90,13 @@ torch::autograd::variable_list Se4pwOp::forward(
                     tilde_r_deriv_ptr,
                     relative_coords_ptr,
                     inum,
-                    ilist[ii].data_ptr<int>(),
-                    numneigh[ii].data_ptr<int>(),
-                    firstneigh[ii].data_ptr<int>(),
-                    x[ii].data_ptr<double>(),
-                    types[ii].data_ptr<int>(),
+                    ilist_contiguous[ii].data_ptr<int>(),
+                    numneigh_contiguous[ii].data_ptr<int>(),
+                    firstneigh_contiguous[ii].data_ptr<int>(),
+                    x_contiguous[ii].data_ptr<double>(),
+                    types_contiguous[ii].data_ptr<int>(),
                     ntypes,
-                    num_neigh_atoms_lst.data_ptr<int>(),
+                    num_neigh_atoms_lst_contiguous.data_ptr<int>(),
                     rcut,
                     rcut_smooth);
         }
@@ -119,11 +121,12 @@ at::Tensor Se4pwOp::get_prim_indices_from_matersdk(
     c10::Device device = ilist.device();
     c10::ScalarType int_dtype = ilist.scalar_type();
 
-    ilist.to(int_dtype);
-    numneigh.to(int_dtype);
-    firstneigh.to(int_dtype);
-    types.to(int_dtype);
-    num_neigh_atoms_lst.to(int_dtype);
+    // Note: `data_ptr()` ignores strides
+    at::Tensor ilist_contiguous = ilist.contiguous();
+    at::Tensor numneigh_contiguous = numneigh.contiguous();
+    at::Tensor firstneigh_contiguous = firstneigh.contiguous();
+    at::Tensor types_contiguous = types.contiguous();
+    at::Tensor num_neigh_atoms_lst_contiguous = num_neigh_atoms_lst.contiguous();
 
     int tot_num_neigh_atoms = num_neigh_atoms_lst.sum().item<int>();
     at::Tensor prim_indices = at::zeros({batch_size, inum, tot_num_neigh_atoms}).to(int_dtype);
@@ -133,12 +136,12 @@ at::Tensor Se4pwOp::get_prim_indices_from_matersdk(
         Se4pw<double>::get_prim_indices_from_matersdk(
             prim_indices_ptr,
             inum,
-            ilist[ii].data_ptr<int>(),
-            numneigh[ii].data_ptr<int>(),
-            firstneigh[ii].data_ptr<int>(),
-            types[ii].data_ptr<int>(),
+            ilist_contiguous[ii].data_ptr<int>(),
+            numneigh_contiguous[ii].data_ptr<int>(),
+            firstneigh_contiguous[ii].data_ptr<int>(),
+            types_contiguous[ii].data_ptr<int>(),
             ntypes,
-            num_neigh_atoms_lst.data_ptr<int>());
+            num_neigh_atoms_lst_contiguous.data_ptr<int>());
     }
 
     return prim_indices;
-- 
2.43.0


From f3e6fb12699043889e51153aaf3386cbaafd0038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:12 +0000
Subject: [PATCH 67/81] fix: matersdk.feature.deepmd.preprocess imported a
 module that no longer exists

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 3ea5e02..03c5b24 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -2,7 +2,7 @@ import numpy as np
 import h5py
 from typing import Union, List, Dict
 
-from ...data.deepmd.data_system import DpLabeledSystem
+from ...data.struct_collection import StructCollection as DpLabeledSystem
 from ...io.publicLayer.structure import DStructure
 from ...io.publicLayer.neigh import StructureNeighborsDescriptor
 from ...feature.deepmd.se_pair import DpseTildeRPairDescriptor
-- 
2.43.0


From 8f0941d5cf91cf03b11106921251e3a764fc65ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:12 +0000
Subject: [PATCH 68/81] fix: TildeRNormalizer.normalize took the neighbour
 species from the centre species

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 03c5b24..71f219d 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -363,7 +363,7 @@ class TildeRNormalizer(object):
         for tmp_center_an in self.center_atomic_numbers:
             tmp_center_tildeRs_lst = []
             tmp_center_tildeR_derivatives_lst = []
-            for tmp_nbr_an in self.center_atomic_numbers:
+            for tmp_nbr_an in self.nbr_atomic_numbers:
                 tmp_key = "{0}_{1}".format(tmp_center_an, tmp_nbr_an)
                 tmp_center_tildeRs_lst.append(tildeRs_dict[tmp_key])
                 tmp_center_tildeR_derivatives_lst.append(tildeR_derivatives_dict[tmp_key])
-- 
2.43.0


From 7f41a8ab7513f51d853fb3bf595af998888442d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 69/81] fix: the standard deviation of equal environment-matrix
 entries could be NaN

---
 matersdk/feature/deepmd/preprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 71f219d..8edf7d2 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -526,8 +526,9 @@ class TildeRPairNormalizer(object):
         '''
         if (N == 0):
             return 1e-2
+        # rounding can make the variance of (nearly) equal values slightly negative
         std = np.sqrt(
-                sum2_value / N - np.multiply(sum_value/N, sum_value/N)
+                max(0., sum2_value / N - np.multiply(sum_value/N, sum_value/N))
         )
         if np.abs(std) < 1e-2:
             std = 1e-2
-- 
2.43.0


From 496c288c6e991cda9c50444f6dcdbcbe180dd1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 70/81] fix: DpInfer could not load a saved model with torch >=
 2.6

---
 matersdk/infer/pwmatmlff/deepmd/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/inference.py b/matersdk/infer/pwmatmlff/deepmd/inference.py
index f907232..883f07d 100644
--- a/matersdk/infer/pwmatmlff/deepmd/inference.py
+++ b/matersdk/infer/pwmatmlff/deepmd/inference.py
@@ -113,7 +113,7 @@ class DpInfer(object):
     
 
     def infer(self, structure:DStructure):
-        model = torch.load(f=self.pt_file_path)
+        model = torch.load(f=self.pt_file_path, weights_only=False)
         print("model.to : ", self.device)
         model.to(self.device)
         model.eval()
-- 
2.43.0


From ce7192b33dd190d2830a8040a16bf01a123aafd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:26 +0000
Subject: [PATCH 71/81] fix: vec3Operation::RecursionOuterProduct leaked the
 lower-order products

---
 source/core/include/vec3Operation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/include/vec3Operation.h b/source/core/include/vec3Operation.h
index 0dbaf5d..5d19a73 100644
--- a/source/core/include/vec3Operation.h
+++ b/source/core/include/vec3Operation.h
@@ -63,6 +63,9 @@ CoordType** RecursionOuterProduct(int nju, CoordType* vec) {
                 }
             }
         }
+        for (int ii=0; ii<nrows_lower; ii++)
+            free(result_lower[ii]);
+        free(result_lower);
     }
 
     return result;
-- 
2.43.0


From cfc769967ba57b3280518a148aff97f745038968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:26 +0000
Subject: [PATCH 72/81] fix: TildeR::deriv leaked its start-index lists

---
 source/descriptor/deepmd/include/se.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index 4d3c14a..6c4bf7f 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -2503,6 +2503,8 @@ void TildeR<CoordType>::deriv(
 
     // Step . Free memory
     free(num_center_atoms_lst);
+    free(cstart_idxs);
+    free(nstart_idxs);
 }
 
 
-- 
2.43.0


From 7579effc0d0376e58636e548d74520c79a0e7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:26 +0000
Subject: [PATCH 73/81] fix: TildeR leaked the lists of copies of an empty
 object

---
 source/descriptor/deepmd/include/se.h | 32 ++++++++++++---------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index 6c4bf7f..dcf18d1 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1565,15 +1565,16 @@ TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
     if (this == &rhs)
         return *this;
 
-    if (this->num_center_atomic_numbers != 0) {
-        free(this->center_atomic_numbers_lst);
-        free(this->num_center_atoms_lst);
-        free(this->neigh_atomic_numbers_lst);
-        free(this->num_neigh_atoms_lst);
-
-        this->num_center_atomic_numbers = 0;
-        this->num_neigh_atomic_numbers = 0;
-    }
+    free(this->center_atomic_numbers_lst);
+    free(this->num_center_atoms_lst);
+    free(this->neigh_atomic_numbers_lst);
+    free(this->num_neigh_atoms_lst);
+    this->center_atomic_numbers_lst = nullptr;
+    this->num_center_atoms_lst = nullptr;
+    this->neigh_atomic_numbers_lst = nullptr;
+    this->num_neigh_atoms_lst = nullptr;
+    this->num_center_atomic_numbers = 0;
+    this->num_neigh_atomic_numbers = 0;
 
     this->neighbor_list = rhs.neighbor_list;
     this->num_center_atomic_numbers = rhs.num_center_atomic_numbers;
@@ -1606,15 +1607,10 @@ TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
 
 template <typename CoordType>
 TildeR<CoordType>::~TildeR() {
-    if (this->num_center_atomic_numbers != 0) {
-        free(this->center_atomic_numbers_lst);
-        free(this->num_center_atoms_lst);
-    }
-
-    if (this->num_neigh_atomic_numbers != 0) {
-        free(this->neigh_atomic_numbers_lst);
-        free(this->num_neigh_atoms_lst);
-    }
+    free(this->center_atomic_numbers_lst);
+    free(this->num_center_atoms_lst);
+    free(this->neigh_atomic_numbers_lst);
+    free(this->num_neigh_atoms_lst);
 
     this->num_center_atomic_numbers = 0;
     this->num_neigh_atomic_numbers = 0;
-- 
2.43.0


From 217bce74b90a9b8b8b4642a0f901d1cd0bb07ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:26 +0000
Subject: [PATCH 74/81] fix: ChebyshevPoly and MtpQ assignments leaked the
 buffers of copies of empty objects

---
 source/descriptor/mtp/include/mtpMRadial.h | 44 +++++++++-------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index a0ba7be..901a886 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -321,14 +321,12 @@ ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(const ChebyshevPol
 {
     if (this == &rhs)
         return *this;
-    if (this->size_ != 0) {
-        this->size_ = 0;
-        this->rcut = 0;
-        this->rcut_smooth = 0;
-        free(this->result);
-        free(this->deriv2xi);
-        free(this->deriv2r);
-    }
+    this->size_ = 0;
+    this->rcut = 0;
+    this->rcut_smooth = 0;
+    free(this->result);
+    free(this->deriv2xi);
+    free(this->deriv2r);
 
     this->size_ = rhs.size_;
     this->switch_func = rhs.switch_func;
@@ -349,14 +347,12 @@ template <typename CoordType>
 ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(ChebyshevPoly&& rhs)
 {
     if (this != &rhs) {
-        if (this->size_ != 0) {
-            this->size_ = 0;
-            this->rcut = 0;
-            this->rcut_smooth = 0;
-            free(this->result);
-            free(this->deriv2xi);
-            free(this->deriv2r);
-        }
+        this->size_ = 0;
+        this->rcut = 0;
+        this->rcut_smooth = 0;
+        free(this->result);
+        free(this->deriv2xi);
+        free(this->deriv2r);
         this->size_ = rhs.size_;
         this->switch_func = rhs.switch_func;
         this->rcut = rhs.rcut;
@@ -513,11 +509,9 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
 {
     if (this == &rhs)
         return *this;
-    if (this->size_ != 0) {
-        this->size_ = 0;
-        free(this->result);
-        free(this->deriv2r);
-    }
+    this->size_ = 0;
+    free(this->result);
+    free(this->deriv2r);
     this->size_ = rhs.size_;
     this->switch_func2 = rhs.switch_func2;
     this->chebyshev = rhs.chebyshev;
@@ -534,11 +528,9 @@ template <typename CoordType>
 MtpQ<CoordType>& MtpQ<CoordType>::operator=(MtpQ&& rhs)
 {
     if (this != &rhs) {
-        if (this->size_ != 0) {
-            this->size_ = 0;
-            free(this->result);
-            free(this->deriv2r);
-        }
+        this->size_ = 0;
+        free(this->result);
+        free(this->deriv2r);
         this->size_ = rhs.size_;
         this->switch_func2 = rhs.switch_func2;
         this->chebyshev = rhs.chebyshev;
-- 
2.43.0


From f104fdc5e1309edc1ddf524b01d574e7c90b2d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:26 +0000
Subject: [PATCH 75/81] fix: RQ_Chebyshev assignments leaked the radial basis
 of empty objects

---
 source/descriptor/mtpr/include/basis.h | 28 +++++++++++---------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 98ceb34..dec4f23 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -452,14 +452,12 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
 {
     if (this == &rhs)
         return *this;
-    if (this->_size != 0) {
-        delete this->_rb_ptr;
-        free(this->_vals);
-        free(this->_ders2r);
-        this->_size = 0;
-        this->_rmax = 0;
-        this->_rmin = 0;
-    }
+    delete this->_rb_ptr;
+    free(this->_vals);
+    free(this->_ders2r);
+    this->_size = 0;
+    this->_rmax = 0;
+    this->_rmin = 0;
 
     this->_size = rhs._size;
     this->_rmax = rhs._rmax;
@@ -486,14 +484,12 @@ template <typename CoordType>
 RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(RQ_Chebyshev&& rhs)
 {
     if (this != &rhs) {
-        if (this->_size != 0) {
-            delete this->_rb_ptr;
-            free(this->_vals);
-            free(this->_ders2r);
-            this->_size = 0;
-            this->_rmax = 0;
-            this->_rmin = 0;
-        } 
+        delete this->_rb_ptr;
+        free(this->_vals);
+        free(this->_ders2r);
+        this->_size = 0;
+        this->_rmax = 0;
+        this->_rmin = 0;
 
         this->_size = rhs._size;
         this->_rmax = rhs._rmax;
-- 
2.43.0


From c716871300770d730b5072ac03c741bcaba6deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:26 +0000
Subject: [PATCH 76/81] fix: MtpParam leaked its tables when loaded twice or
 assigned over a copy of an empty object

---
 source/descriptor/mtpr/src/mtpParam.cc | 46 +++++++++++---------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 6bf9acb..c57b7f0 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -57,6 +57,7 @@ void MtpParam::_load(const std::string& filename)
         MtpError("Cannot read alpha_index_basic_count.");
     
     // alpha_index_basic
+    free(this->_alpha_index_basic);
     this->_alpha_index_basic = (int (*)[4])malloc(4*sizeof(int)*this->_alpha_index_basic_count);
     ifs >> tmpstr;
     if (tmpstr != "alpha_index_basic")
@@ -84,6 +85,8 @@ void MtpParam::_load(const std::string& filename)
         MtpError("Cannot read alpha_index_times_count.");
 
     // alpha_index_times
+    free(this->_alpha_index_times);
+    this->_alpha_index_times = nullptr;
     if (this->_alpha_index_times_count != 0)
         this->_alpha_index_times = (int (*)[4])malloc(4*sizeof(int) * this->_alpha_index_times_count);
     ifs >> tmpstr;
@@ -113,6 +116,7 @@ void MtpParam::_load(const std::string& filename)
         MtpError("Cannot read alpha_scalar_moments.");
     
     // alpha_moment_mapping
+    free(this->_alpha_moment_mapping);
     this->_alpha_moment_mapping = (int*)malloc(sizeof(int) * this->_alpha_scalar_moments);
     ifs >> tmpstr;
     if (tmpstr != "alpha_moment_mapping")
@@ -180,21 +184,15 @@ MtpParam& MtpParam::operator=(const MtpParam& rhs)
     if (this == &rhs)
         return *this;
     this->_alpha_moments_count = 0;
-    if (this->_alpha_index_basic_count != 0) {
-        free(this->_alpha_index_basic);
-        this->_alpha_index_basic = nullptr;
-        this->_alpha_index_basic_count = 0;
-    }
-    if (this->_alpha_index_times_count != 0) {
-        free(this->_alpha_index_times);
-        this->_alpha_index_times = nullptr;
-        this->_alpha_index_times_count = 0;
-    }
-    if (this->_alpha_scalar_moments != 0) {
-        free(this->_alpha_moment_mapping);
-        this->_alpha_moment_mapping = nullptr;
-        this->_alpha_scalar_moments = 0;
-    }
+    free(this->_alpha_index_basic);
+    this->_alpha_index_basic = nullptr;
+    this->_alpha_index_basic_count = 0;
+    free(this->_alpha_index_times);
+    this->_alpha_index_times = nullptr;
+    this->_alpha_index_times_count = 0;
+    free(this->_alpha_moment_mapping);
+    this->_alpha_moment_mapping = nullptr;
+    this->_alpha_scalar_moments = 0;
 
     this->_alpha_moments_count = rhs._alpha_moments_count;
     this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
@@ -231,18 +229,12 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
 {
     if (this != &rhs) {
         this->_alpha_moments_count = 0;
-        if (this->_alpha_index_basic_count != 0) {
-            free(this->_alpha_index_basic);
-            this->_alpha_index_basic_count = 0;
-        }
-        if (this->_alpha_index_times_count != 0) {
-            free(this->_alpha_index_times);
-            this->_alpha_index_times_count = 0;
-        }
-        if (this->_alpha_scalar_moments != 0) {
-            free(this->_alpha_moment_mapping);
-            this->_alpha_scalar_moments = 0;
-        }
+        free(this->_alpha_index_basic);
+        this->_alpha_index_basic_count = 0;
+        free(this->_alpha_index_times);
+        this->_alpha_index_times_count = 0;
+        free(this->_alpha_moment_mapping);
+        this->_alpha_scalar_moments = 0;
 
         this->_alpha_moments_count = rhs._alpha_moments_count;
         this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
-- 
2.43.0


From ce2765a36e24153a2afb3fa39e10cfd15298368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:26 +0000
Subject: [PATCH 77/81] fix: RadialBasisChebyshev never freed its tables

---
 source/descriptor/mtp/include/mtpMRadial_de.h | 46 +++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/source/descriptor/mtp/include/mtpMRadial_de.h b/source/descriptor/mtp/include/mtpMRadial_de.h
index efc4499..276880a 100644
--- a/source/descriptor/mtp/include/mtpMRadial_de.h
+++ b/source/descriptor/mtp/include/mtpMRadial_de.h
@@ -128,6 +128,12 @@ public:
                 int hmju,
                 CoordType rji);  // Highest mju (切比雪夫多项式的最高次数)
 
+    RadialBasisChebyshev(const RadialBasisChebyshev& rhs);
+
+    RadialBasisChebyshev& operator=(const RadialBasisChebyshev& rhs);
+
+    ~RadialBasisChebyshev();
+
     void calc_chebyshev_vals();    // Calculate the value of radial basis without multiplying SwitchFunc
 
     void calc_chebyshev_ders();    // Calculate the deriv (derivative with r_ji) of radial basis without multiplying SwitchFunc
@@ -216,6 +222,46 @@ RadialBasisChebyshev<CoordType>::RadialBasisChebyshev(
 }
 
 
+template <typename CoordType>
+RadialBasisChebyshev<CoordType>::RadialBasisChebyshev(const RadialBasisChebyshev& rhs) {
+    *this = rhs;
+}
+
+
+template <typename CoordType>
+RadialBasisChebyshev<CoordType>& RadialBasisChebyshev<CoordType>::operator=(const RadialBasisChebyshev& rhs) {
+    if (this == &rhs)
+        return *this;
+
+    this->rcut = rhs.rcut;
+    this->rcut_smooth = rhs.rcut_smooth;
+    this->hmju = rhs.hmju;
+    this->rji = rhs.rji;
+
+    CoordType** lhs_arrays[4] = {&this->chebyshev_vals, &this->chebyshev_ders, &this->rb_vals, &this->rb_ders};
+    CoordType* rhs_arrays[4] = {rhs.chebyshev_vals, rhs.chebyshev_ders, rhs.rb_vals, rhs.rb_ders};
+    for (int kk=0; kk<4; kk++) {
+        free(*lhs_arrays[kk]);
+        *lhs_arrays[kk] = nullptr;
+        if (rhs_arrays[kk] != nullptr) {
+            *lhs_arrays[kk] = (CoordType*)malloc( sizeof(CoordType) * (this->hmju+1) );
+            for (int ii=0; ii<(this->hmju+1); ii++)
+                (*lhs_arrays[kk])[ii] = rhs_arrays[kk][ii];
+        }
+    }
+    return *this;
+}
+
+
+template <typename CoordType>
+RadialBasisChebyshev<CoordType>::~RadialBasisChebyshev() {
+    free(this->chebyshev_vals);
+    free(this->chebyshev_ders);
+    free(this->rb_vals);
+    free(this->rb_ders);
+}
+
+
 
 template <typename CoordType>
 void RadialBasisChebyshev<CoordType>::calc_chebyshev_vals() 
-- 
2.43.0


From c053c460ebcfa73f21c6f52431038f693d58ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:28 +0000
Subject: [PATCH 78/81] fix: neighbour counts left out the neighbours exactly
 at the cutoff, which the neighbour table lists

---
 matersdk/io/publicLayer/neigh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 2e72672..ad4b29a 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -43,7 +43,7 @@ class StructureNeighborsUtils(object):
             tmp_distances = np.linalg.norm(tmp_relative_coords, axis=1)
             
             ### Step 2.2. 判断哪些近邻原子在截断半径内
-            tmp_mark_rcut = np.where(tmp_distances<rcut, True, False)
+            tmp_mark_rcut = np.where(tmp_distances<=rcut, True, False)
             
             ### Step 2.3. 计算在截断半径内的原子数目
             tmp_num_nbrs = np.count_nonzero(tmp_mark_rcut)
@@ -93,7 +93,7 @@ class StructureNeighborsUtils(object):
             tmp_distances = np.linalg.norm(tmp_relative_coords, axis=1)
             
             ### Step 2.2. 判断哪些近邻原子在截断半径内
-            tmp_mark_rcut = np.where(tmp_distances<rcut, True, False)
+            tmp_mark_rcut = np.where(tmp_distances<=rcut, True, False)
             
             ### Step 2.3. 
             for tmp_element in nbr_elements:
-- 
2.43.0


From fb44314de790dc917738fa389fec36faf6ea1814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:28 +0000
Subject: [PATCH 79/81] fix: trajectory averages failed on machines with one or
 two processors

---
 matersdk/feature/avg/avgbond.py | 2 +-
 matersdk/feature/avg/msd.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index edc13f2..6c58afa 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -69,7 +69,7 @@ class AvgBond(object):
                     self.atomic_number_1,
                     self.atomic_number_2) for tmp_structure in self.frames_lst]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             avg_bond_lengths_lst = pool.starmap(
                                         ParallelFunction.get_avg_bond_length,
                                         parameters_lst
diff --git a/matersdk/feature/avg/msd.py b/matersdk/feature/avg/msd.py
index 331750d..d9c10dc 100644
--- a/matersdk/feature/avg/msd.py
+++ b/matersdk/feature/avg/msd.py
@@ -70,7 +70,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_s,
                                 parameters_lst
@@ -95,7 +95,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_sub_centroid_s,
                                 parameters_lst
-- 
2.43.0


From a3b3e11a751cdb89ebef44bcacba5ed08241e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:28 +0000
Subject: [PATCH 80/81] fix: collections failed on machines with one or two
 processors

---
 matersdk/data/struct_collection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 832304a..f513a86 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -424,7 +424,7 @@ class StructCollection(object):
                         self.structures_lst[tmp_idx],
                         scaling_matrix) for tmp_idx in range(self.num_structures)]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             pool.starmap(ParallelFunction.save_struct_nbr, parameters_lst)
 
 
@@ -442,7 +442,7 @@ class StructCollection(object):
                     tmp_structure,
                     rcut,
                     scaling_matrix) for tmp_structure in self.structures_lst]
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_lst = pool.starmap(
                                         ParallelFunction.get_max_num_nbrs_real,
                                         parameters_lst)
@@ -474,7 +474,7 @@ class StructCollection(object):
                             scaling_matrix) for tmp_structure in self.structures_lst]
         
         ### Step 1. 初始化
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_element:Dict[str, int] = pool.starmap(
                                     ParallelFunction.get_max_num_nbrs_real_element,
                                     parameters_lst)
-- 
2.43.0


From d03ce089f58d2b36c5c42e7fb4c734fce01f85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:58 +0000
Subject: [PATCH 81/81] fix: fat-band files with a single band could not be
 read

---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index b92ab01..50e4f86 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -49,12 +49,7 @@ class FatbandStructure(object):
         -----------
             1. 得到 kpoints 的数目
         '''
-        idx_lines_lst = LineLocator.locate_all_lines(
-                    file_path=self.fatbandstructure_txt_path,
-                    content="BAND",
-        )
-        num_kpoints = idx_lines_lst[1] - idx_lines_lst[0] - 2
-        return num_kpoints
+        return len(self._preprocess()) // self.num_bands
     
 
     def _get_BAND_mark_idxs(self):
-- 
2.43.0

