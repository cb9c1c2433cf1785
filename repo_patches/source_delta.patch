From 48c91d890fe9b6e9785069164901dcff2417edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 01/39] fix: keep body snapshot and profile buffers on the heap

A body with many segments overflowed the stack on save and load.
---
 libvvhd/src/MStepdata.cpp       |  8 ++++----
 libvvhd/src/TSpace_load_hdf.cpp |  9 +++++----
 libvvhd/src/TSpace_save_hdf.cpp | 11 ++++++-----
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index c68a7d5..b2b022e 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -168,8 +168,8 @@ void Stepdata::write()
 
         if (b_save_profile)
         {
-            double pressure_buf[lbody->size()];
-            double friction_buf[lbody->size()];
+            std::vector<double> pressure_buf(lbody->size());
+            std::vector<double> friction_buf(lbody->size());
             for (size_t s=0; s<lbody->size(); s++)
             {
                 TAtt &latt = lbody->alist[s];
@@ -177,8 +177,8 @@ void Stepdata::write()
                 friction_buf[s] = latt.Fr/S->dt;
                 latt.Cp = latt.Fr = latt.Nu = 0;
             }
-            append(pressure_h5d[body_n], pressure_buf);
-            append(friction_h5d[body_n], friction_buf);
+            append(pressure_h5d[body_n], pressure_buf.data());
+            append(friction_h5d[body_n], friction_buf.data());
         }
     }
 
diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 21f9553..dc6d496 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -5,6 +5,7 @@
 #include "elementary.h"
 #include "vvhdf.h"
 
+#include <array>
 #include <map>
 typedef std::map<std::string, std::shared_ptr<TBody>> body_map_t;
 
@@ -92,9 +93,9 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
         body.root_body = body_map[root_name];
     }
 
-    double att_array[N][4] = {0};
-    uint32_t slip_array[N] = {0};
-    herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array);
+    std::vector<std::array<double, 4>> att_array(N);
+    std::vector<uint32_t> slip_array(N);
+    herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array.data());
     if (err < 0)
         h5_throw("H5Dread", name);
 
@@ -136,7 +137,7 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
         {
             // slip_array = (uint32_t*)malloc(dims[0] * sizeof(uint32_t));
             hid_t aid = H5Aopen(h5d, "slip", H5P_DEFAULT);
-            H5Aread(aid, H5T_NATIVE_UINT32, slip_array);
+            H5Aread(aid, H5T_NATIVE_UINT32, slip_array.data());
             H5Aclose(aid);
         }
         else
diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index f96cfdb..10372fa 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -5,6 +5,7 @@
 #include "elementary.h"
 #include "vvhdf.h"
 
+#include <array>
 #include <map>
 
 
@@ -56,13 +57,13 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     hsize_t N = body.size();
     hsize_t dims[2] = {N, 4};
 
-    double att_array[N][4] = {0};
+    std::vector<std::array<double, 4>> att_array(N);
 
     uint32_t general_slip = body.alist.front().slip;
-    uint32_t slip_array[N] = {0};
+    std::vector<uint32_t> slip_array(N);
 
     float heat_const = body.alist.front().heat_const;
-    float heat_array[N] = {0};
+    std::vector<float> heat_array(N);
 
     for (hsize_t i=0; i<N; i++) {
         const TAtt& att = body.alist[i];
@@ -101,7 +102,7 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
         if (aid < 0)
             h5_throw("H5Acreate", name);
 
-        herr_t err = H5Awrite(aid, h5t<uint32_t>::id, slip_array);
+        herr_t err = H5Awrite(aid, h5t<uint32_t>::id, slip_array.data());
         if (err < 0)
             h5_throw("H5Awrite", name);
 
@@ -154,7 +155,7 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     h5a_write<bc_t> (h5d, "boundary_condition", body.boundary_condition);
     h5a_write<hc_t> (h5d, "heat_condition", body.heat_condition);
 
-    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array);
+    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array.data());
     if (err < 0)
         h5_throw("H5Dwrite", name);
     err = H5Dclose(h5d);
-- 
2.43.0


From 82e88de6dfb3e346e36070c26329f4db11a46f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 02/39] fix: loading a file also drops the previous source list

---
 libvvhd/src/TSpace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4c796a6..4a810b1 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -40,6 +40,7 @@ void Space::load(const char* fname, metainfo_t *info)
     BodyList.clear();
     VortexList.clear();
     HeatList.clear();
+    SourceList.clear();
     StreakSourceList.clear();
     StreakList.clear();
 
-- 
2.43.0


From 902083003ec24ea3f59c88bf0acebe7985c13e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 03/39] fix: refresh the heat layer and an empty contour with
 the body

The heat layer was computed once and kept after the body moved.
---
 libvvhd/src/TBody.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 0143ceb..f96b73a 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -199,6 +199,8 @@ void TBody::move(TVec3D deltaHolder, TVec3D deltaBody)
 
 void TBody::doUpdateSegments()
 {
+    heat_layer.clear();
+
     if (!alist.size()) {
         return;
     }
@@ -287,6 +289,11 @@ void TBody::doFillProperties()
     _area = 0;
 
     if (!alist.size()) {
+        _cofm = TVec();
+        _moi_cofm = 0;
+        _min_disc_r2 = 0;
+        _min_rect_bl = TVec();
+        _min_rect_tr = TVec();
         return;
     }
 
-- 
2.43.0


From b5c744e8c835566872d50052dbb82d4150c2a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 04/39] fix: a malformed body file no longer leaves a partial
 body

The contour is replaced only after the whole file was read, and the slip
flag of one line is not carried over to the next.
---
 libvvhd/src/TBody.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index f96b73a..cfd7a6e 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -357,19 +357,18 @@ inline double atan2(const TVec &p)
 /********************************** SAVE/LOAD *********************************/
 int TBody::load_txt(const char* filename)
 {
-    alist.clear();
-
     FILE *fin = fopen(filename, "r");
     if (!fin) { return errno; }
 
-    TVec corner;
-    uint32_t slip = false;
+    std::vector<TAtt> contour;
     int  err = 0;
     char line[128];
     while ( !err && !feof(fin) && !ferror(fin) && fgets(line, sizeof(line), fin) )
     {
+        TVec corner;
+        uint32_t slip = false;
         err |= sscanf(line, "%lf %lf %u", &corner.x, &corner.y, &slip) < 2;
-        alist.emplace_back(corner, slip);
+        contour.emplace_back(corner, slip);
     }
 
     err |= ferror(fin);
@@ -379,6 +378,7 @@ int TBody::load_txt(const char* filename)
         return errno?:EINVAL;
     }
 
+    alist.swap(contour);
     doUpdateSegments();
     doFillProperties();
 
-- 
2.43.0


From b7ce877faa06e8009a9cd6d4e06f5b57819b1b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 05/39] fix: keep iterators and heat layer indexes valid when
 particles are erased

heat_crop() shifted the particles addressed by TAtt::heat_layer_obj_no.
---
 libvvhd/src/MFlowmove.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/libvvhd/src/MFlowmove.cpp b/libvvhd/src/MFlowmove.cpp
index bd4af5d..00f7eb8 100644
--- a/libvvhd/src/MFlowmove.cpp
+++ b/libvvhd/src/MFlowmove.cpp
@@ -112,12 +112,12 @@ void MFlowmove::move_and_clean(bool remove, const void** collision, size_t* clea
     // FIXME попробовать переписать с std::remoe_if() и лямбдой
     for (auto lobj = S->VortexList.begin(); lobj < S->VortexList.end(); )
     {
-        if ( fabs(lobj->g) < remove_eps ) S->VortexList.erase(lobj);
+        if ( fabs(lobj->g) < remove_eps ) lobj = S->VortexList.erase(lobj);
         else lobj++;
     }
     for (auto lobj = S->HeatList.begin(); lobj < S->HeatList.end(); )
     {
-        if ( fabs(lobj->g) < remove_eps ) S->HeatList.erase(lobj);
+        if ( fabs(lobj->g) < remove_eps ) lobj = S->HeatList.erase(lobj);
         else lobj++;
     }
 
@@ -139,7 +139,7 @@ void MFlowmove::move_and_clean(bool remove, const void** collision, size_t* clea
             bad_segment->gsum -= lobj->g;
             bad_body->g_dead += lobj->g;
             *cleaned_v += 1;
-            S->VortexList.erase(lobj);
+            lobj = S->VortexList.erase(lobj);
         }
     }
 
@@ -157,7 +157,7 @@ void MFlowmove::move_and_clean(bool remove, const void** collision, size_t* clea
         if (bad_body)
         {
             bad_segment->hsum -= lobj->g;
-            S->HeatList.erase(lobj);
+            lobj = S->HeatList.erase(lobj);
             continue;
         }
 
@@ -175,7 +175,7 @@ void MFlowmove::move_and_clean(bool remove, const void** collision, size_t* clea
         if (bad_segment->heat_layer_obj_no >= 0)
         {
             bad_segment->hsum -= lobj->g;
-            S->HeatList.erase(lobj);
+            lobj = S->HeatList.erase(lobj);
             continue;
         } else
         {
@@ -187,7 +187,7 @@ void MFlowmove::move_and_clean(bool remove, const void** collision, size_t* clea
 
     for (auto lobj = S->StreakList.begin(); lobj < S->StreakList.end(); )
     {
-        if ( S->point_is_in_body(lobj->r) ) S->StreakList.erase(lobj);
+        if ( S->point_is_in_body(lobj->r) ) lobj = S->StreakList.erase(lobj);
         else lobj++;
     }
 
@@ -276,8 +276,19 @@ void MFlowmove::heat_crop(double scale)
 {
     for (auto lobj = S->HeatList.begin(); lobj < S->HeatList.end(); )
     {
-        if (lobj->r.x > scale) S->HeatList.erase(lobj);
-        else lobj++;
+        if (!(lobj->r.x > scale)) { lobj++; continue; }
+
+        // keep the particles of the heat layer addressed by the segments
+        const int64_t obj_no = lobj - S->HeatList.begin();
+        for (auto& lbody: S->BodyList)
+        {
+            for (auto& latt: lbody->alist)
+            {
+                if (latt.heat_layer_obj_no == obj_no) latt.heat_layer_obj_no = -1;
+                else if (latt.heat_layer_obj_no > obj_no) latt.heat_layer_obj_no--;
+            }
+        }
+        lobj = S->HeatList.erase(lobj);
     }
 }
 
-- 
2.43.0


From d9b68228eb37f5f381f64639776d1ccc41a11c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 06/39] fix: report every failed HDF5 call and release
 identifiers on every exit

A failed save kept the file open, so that it could not be retried, and several
failures were ignored.
---
 libvvhd/headers/vvhdf.h         | 35 ++++++++++++++++
 libvvhd/src/TSpace.cpp          |  8 ++--
 libvvhd/src/TSpace_load_hdf.cpp | 48 +++++++++++++++-------
 libvvhd/src/TSpace_save_hdf.cpp | 48 +++++++++++++---------
 libvvhd/src/vvhdf.cpp           | 22 ++++++----
 libvvhd/src/vvhdf_h5t.cpp       | 73 ++++++++++++++++++++++++---------
 6 files changed, 170 insertions(+), 64 deletions(-)

diff --git a/libvvhd/headers/vvhdf.h b/libvvhd/headers/vvhdf.h
index 97d4290..348c456 100644
--- a/libvvhd/headers/vvhdf.h
+++ b/libvvhd/headers/vvhdf.h
@@ -5,6 +5,41 @@
 
 void h5_throw(std::string fn, std::string arg);
 
+// Owns an identifier and closes it at the end of the scope.
+class h5_handle {
+    public:
+        h5_handle(hid_t id, herr_t (*closer)(hid_t)): id(id), closer(closer) {}
+        h5_handle(const h5_handle&) = delete;
+        h5_handle& operator= (const h5_handle&) = delete;
+        ~h5_handle() { close(); }
+        operator hid_t() const { return id; }
+        herr_t close() {
+            if (id < 0)
+                return 0;
+            herr_t err = closer(id);
+            id = -1;
+            return err;
+        }
+
+        hid_t release() {
+            hid_t ret = id;
+            id = -1;
+            return ret;
+        }
+
+    private:
+        hid_t id;
+        herr_t (*closer)(hid_t);
+};
+
+// Releases the types left open by an operation that failed.
+struct h5t_scope {
+    h5t_scope() = default;
+    h5t_scope(const h5t_scope&) = delete;
+    h5t_scope& operator= (const h5t_scope&) = delete;
+    ~h5t_scope();
+};
+
 template<typename T>
 // <int32_t>
 // <uint32_t>
diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4a810b1..3645ea4 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -51,13 +51,13 @@ void Space::load(const char* fname, metainfo_t *info)
         return;
     }
 
-    hid_t fid = H5Fopen(fname, H5F_ACC_RDONLY, H5P_DEFAULT);
+    h5_handle fid(H5Fopen(fname, H5F_ACC_RDONLY, H5P_DEFAULT), H5Fclose);
     if (fid < 0)
         h5_throw("H5Fopen", fname);
 
     load_hdf(fid, info);
 
-    herr_t err = H5Fclose(fid);
+    herr_t err = fid.close();
     if (err < 0)
         h5_throw("H5Fclose", fname);
 }
@@ -72,13 +72,13 @@ void Space::save(const char* format)
     char fname[64];
     snprintf(fname, 64, format, int(time/dt+0.5));
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
-    hid_t fid = H5Fcreate(fname, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    h5_handle fid(H5Fcreate(fname, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), H5Fclose);
     if (fid < 0)
         h5_throw("H5Fcreate", fname);
 
     save_hdf(fid);
 
-    herr_t err = H5Fclose(fid);
+    herr_t err = fid.close();
     if (err < 0)
         h5_throw("H5Fclose", fname);
 }
diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index dc6d496..ecc79c5 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -11,22 +11,26 @@ typedef std::map<std::string, std::shared_ptr<TBody>> body_map_t;
 
 static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& list)
 {
-    if (!H5Lexists(fid, name.c_str(), H5P_DEFAULT))
+    htri_t exists = H5Lexists(fid, name.c_str(), H5P_DEFAULT);
+    if (exists < 0)
+        h5_throw("H5Lexists", name);
+    if (!exists)
         return;
 
-    hid_t h5d = H5Dopen(fid, name.c_str(), H5P_DEFAULT);
+    h5_handle h5d(H5Dopen(fid, name.c_str(), H5P_DEFAULT), H5Dclose);
     if (h5d < 0)
         h5_throw("H5Dopen", name);
 
-    hid_t h5s_file = H5Dget_space(h5d);
+    h5_handle h5s_file(H5Dget_space(h5d), H5Sclose);
     if (h5s_file < 0)
         h5_throw("H5Dget_space", name);
 
     hsize_t dims1[2];
-    H5Sget_simple_extent_dims(h5s_file, dims1, dims1);
+    if (H5Sget_simple_extent_ndims(h5s_file) != 2 || H5Sget_simple_extent_dims(h5s_file, dims1, NULL) < 0 || dims1[1] != 3)
+        h5_throw("H5Sget_simple_extent_dims", name);
 
     hsize_t dims2[2] = {dims1[0]*2, dims1[1]};
-    hid_t h5s_mem = H5Screate_simple(2, dims2, dims2);
+    h5_handle h5s_mem(H5Screate_simple(2, dims2, dims2), H5Sclose);
     if (h5s_mem < 0)
         h5_throw("H5Screate_simple", name);
 
@@ -40,7 +44,7 @@ static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& li
     err = H5Dread(h5d, H5T_NATIVE_DOUBLE, h5s_mem, h5s_file, H5P_DEFAULT, list.data());
     if (err < 0)
         h5_throw("H5Dread", name);
-    err = H5Dclose(h5d);
+    err = h5d.close();
     if (err < 0)
         h5_throw("H5Dclose", name);
 }
@@ -49,15 +53,16 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
 {
     TBody& body = *body_map[name];
 
-    hid_t h5d = H5Dopen(hid, name.c_str(), H5P_DEFAULT);
+    h5_handle h5d(H5Dopen(hid, name.c_str(), H5P_DEFAULT), H5Dclose);
     if (h5d < 0)
         h5_throw("H5Dopen", name);
 
-    hid_t h5s_file = H5Dget_space(h5d);
+    h5_handle h5s_file(H5Dget_space(h5d), H5Sclose);
     if (h5s_file < 0)
         h5_throw("H5Dget_space", name);
     hsize_t dims[2];
-    H5Sget_simple_extent_dims(h5s_file, dims, dims);
+    if (H5Sget_simple_extent_ndims(h5s_file) != 2 || H5Sget_simple_extent_dims(h5s_file, dims, NULL) < 0 || dims[1] != 4)
+        h5_throw("H5Sget_simple_extent_dims", name);
     hsize_t N = dims[0];
 
     body. label = h5a_read<std::string> (h5d, "label");
@@ -133,12 +138,22 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
     }
     else if (simplified_dataset == 2)
     {
-        if (H5Aexists(h5d, "slip"))
+        htri_t slip_exists = H5Aexists(h5d, "slip");
+        if (slip_exists < 0)
+            h5_throw("H5Aexists", name);
+        if (slip_exists)
         {
             // slip_array = (uint32_t*)malloc(dims[0] * sizeof(uint32_t));
-            hid_t aid = H5Aopen(h5d, "slip", H5P_DEFAULT);
-            H5Aread(aid, H5T_NATIVE_UINT32, slip_array.data());
-            H5Aclose(aid);
+            h5_handle aid(H5Aopen(h5d, "slip", H5P_DEFAULT), H5Aclose);
+            if (aid < 0)
+                h5_throw("H5Aopen", name);
+            h5_handle h5s_slip(H5Aget_space(aid), H5Sclose);
+            if (h5s_slip < 0 || H5Sget_simple_extent_npoints(h5s_slip) != hssize_t(N))
+                h5_throw("H5Aget_space", name);
+            if (H5Aread(aid, H5T_NATIVE_UINT32, slip_array.data()) < 0)
+                h5_throw("H5Aread", name);
+            if (aid.close() < 0)
+                h5_throw("H5Aclose", name);
         }
         else
         {
@@ -165,7 +180,7 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
     body.doUpdateSegments();
     body.doFillProperties();
 
-    err = H5Dclose(h5d);
+    err = h5d.close();
     if (err < 0)
         h5_throw("H5Dclose", name);
 }
@@ -181,6 +196,8 @@ static herr_t list_bodies(hid_t g_id, const char* name, const H5L_info_t*, void
 
 void Space::load_hdf(int64_t fid, metainfo_t *info)
 {
+    h5t_scope types;
+
     caption = h5a_read<std::string> (fid, "caption");
     time = h5a_read<TTime> (fid, "time");
     dt = h5a_read<TTime> (fid, "dt");
@@ -211,7 +228,8 @@ void Space::load_hdf(int64_t fid, metainfo_t *info)
     dataset_read_list(fid, "source", SourceList);
 
     body_map_t body_map;
-    H5Literate(fid, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, list_bodies, &body_map);
+    if (H5Literate(fid, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, list_bodies, &body_map) < 0)
+        h5_throw("H5Literate", "bodies");
 
     for (const auto& pair: body_map) {
         const std::string& name = pair.first;
diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index 10372fa..740ab88 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -19,16 +19,20 @@ static void dataset_write_list(hid_t fid, std::string name, const std::vector<TO
     hsize_t dims1[2] = {N, 3};
     hsize_t dims2[2] = {N*2, 3};
     hsize_t chunkdims[2] = {std::min<hsize_t>(512, N), 3};
-    hid_t prop = H5Pcreate(H5P_DATASET_CREATE);
-    H5Pset_chunk(prop, 2, chunkdims);
-    H5Pset_deflate(prop, 9);
-
-    hid_t h5s_file = H5Screate_simple(2, dims1, dims1);
+    h5_handle prop(H5Pcreate(H5P_DATASET_CREATE), H5Pclose);
+    if (prop < 0)
+        h5_throw("H5Pcreate", name);
+    if (H5Pset_chunk(prop, 2, chunkdims) < 0)
+        h5_throw("H5Pset_chunk", name);
+    if (H5Pset_deflate(prop, 9) < 0)
+        h5_throw("H5Pset_deflate", name);
+
+    h5_handle h5s_file(H5Screate_simple(2, dims1, dims1), H5Sclose);
     if (h5s_file < 0)
         h5_throw("H5Screate_simple", name);
 
-    hid_t h5s_mem = H5Screate_simple(2, dims2, dims2);
-    if (h5s_file < 0)
+    h5_handle h5s_mem(H5Screate_simple(2, dims2, dims2), H5Sclose);
+    if (h5s_mem < 0)
         h5_throw("H5Screate_simple", name);
 
     hsize_t start[2] = {0, 0};
@@ -37,14 +41,14 @@ static void dataset_write_list(hid_t fid, std::string name, const std::vector<TO
     if (err < 0)
         h5_throw("H5Sselect_hyperslab", name);
 
-    hid_t h5d = H5Dcreate(fid, name.c_str(), H5T_NATIVE_DOUBLE, h5s_file, H5P_DEFAULT, prop, H5P_DEFAULT);
+    h5_handle h5d(H5Dcreate(fid, name.c_str(), H5T_NATIVE_DOUBLE, h5s_file, H5P_DEFAULT, prop, H5P_DEFAULT), H5Dclose);
     if (h5d < 0)
         h5_throw("H5Dcreate", name);
 
     err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, h5s_mem, h5s_file, H5P_DEFAULT, list.data());
     if (err < 0)
         h5_throw("H5Dwrite", name);
-    err = H5Dclose(h5d);
+    err = h5d.close();
     if (err < 0)
         h5_throw("H5Dclose", name);
 }
@@ -79,26 +83,30 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     }
 
     hsize_t chunkdims[2] = {std::min<hsize_t>(512, N), 4};
-    hid_t prop = H5Pcreate(H5P_DATASET_CREATE);
-    H5Pset_chunk(prop, 2, chunkdims);
-    H5Pset_deflate(prop, 9);
-
-    hid_t h5s_file = H5Screate_simple(2, dims, dims);
+    h5_handle prop(H5Pcreate(H5P_DATASET_CREATE), H5Pclose);
+    if (prop < 0)
+        h5_throw("H5Pcreate", name);
+    if (H5Pset_chunk(prop, 2, chunkdims) < 0)
+        h5_throw("H5Pset_chunk", name);
+    if (H5Pset_deflate(prop, 9) < 0)
+        h5_throw("H5Pset_deflate", name);
+
+    h5_handle h5s_file(H5Screate_simple(2, dims, dims), H5Sclose);
     if (h5s_file < 0)
         h5_throw("H5Screate_simple", name);
 
-    hid_t h5d = H5Dcreate(fid, name.c_str(), H5T_NATIVE_DOUBLE, h5s_file, H5P_DEFAULT, prop, H5P_DEFAULT);
+    h5_handle h5d(H5Dcreate(fid, name.c_str(), H5T_NATIVE_DOUBLE, h5s_file, H5P_DEFAULT, prop, H5P_DEFAULT), H5Dclose);
     if (h5d < 0)
         h5_throw("H5Dcreate", name);
 
     if (!can_simplify_slip) {
         h5t<uint32_t>::init();
 
-        hid_t h5s_slip = H5Screate_simple(1, dims, dims);
+        h5_handle h5s_slip(H5Screate_simple(1, dims, dims), H5Sclose);
         if (h5s_slip < 0)
             h5_throw("H5Screate_simple", name);
 
-        hid_t aid = H5Acreate(h5d, "slip", h5t<uint32_t>::id, h5s_slip, H5P_DEFAULT, H5P_DEFAULT);
+        h5_handle aid(H5Acreate(h5d, "slip", h5t<uint32_t>::id, h5s_slip, H5P_DEFAULT, H5P_DEFAULT), H5Aclose);
         if (aid < 0)
             h5_throw("H5Acreate", name);
 
@@ -106,7 +114,7 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
         if (err < 0)
             h5_throw("H5Awrite", name);
 
-        err = H5Aclose(aid);
+        err = aid.close();
         if (err < 0)
             h5_throw("H5Aclose", name);
     } else {
@@ -158,13 +166,15 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array.data());
     if (err < 0)
         h5_throw("H5Dwrite", name);
-    err = H5Dclose(h5d);
+    err = h5d.close();
     if (err < 0)
         h5_throw("H5Dclose", name);
 }
 
 void Space::save_hdf(int64_t fid)
 {
+    h5t_scope types;
+
     h5a_write<std::string const&> (fid, "caption", caption);
     h5a_write<TTime> (fid, "time", time);
     h5a_write<TTime> (fid, "dt", dt);
diff --git a/libvvhd/src/vvhdf.cpp b/libvvhd/src/vvhdf.cpp
index 8796dc8..dd37aee 100644
--- a/libvvhd/src/vvhdf.cpp
+++ b/libvvhd/src/vvhdf.cpp
@@ -12,7 +12,8 @@
 
 void h5_throw(std::string fn, std::string arg)
 {
-    H5Epop(H5E_DEFAULT, H5Eget_num(H5E_DEFAULT)-1);
+    if (H5Eget_num(H5E_DEFAULT) > 0)
+        H5Epop(H5E_DEFAULT, H5Eget_num(H5E_DEFAULT)-1);
     H5Eprint(H5E_DEFAULT, stderr);
     throw std::runtime_error( fn + " (" + arg + ") failed");
 }
@@ -23,12 +24,15 @@ void h5_throw(std::string fn, std::string arg)
 
 template<typename T>
 T h5a_read(hid_t hid, const char* name) {
-    if (!H5Aexists(hid, name))
+    htri_t exists = H5Aexists(hid, name);
+    if (exists < 0)
+        h5_throw("H5Aexists", name);
+    if (!exists)
         return T();
 
     h5t<T>::init();
 
-    hid_t aid = H5Aopen(hid, name, H5P_DEFAULT);
+    h5_handle aid(H5Aopen(hid, name, H5P_DEFAULT), H5Aclose);
     if (aid < 0)
         h5_throw("H5Aopen", name);
 
@@ -37,7 +41,7 @@ T h5a_read(hid_t hid, const char* name) {
     if (err < 0)
         h5_throw("H5Aread", name);
 
-    err = H5Aclose(aid);
+    err = aid.close();
     if (err < 0)
         h5_throw("H5Aclose", name);
     return ret;
@@ -103,7 +107,11 @@ template hc_t h5a_read(hid_t, const char*);
 
 static hid_t h5s_scalar()
 {
-    static hid_t h5s = H5Screate(H5S_SCALAR);
+    static hid_t h5s = -1;
+    if (h5s < 0)
+        h5s = H5Screate(H5S_SCALAR);
+    if (h5s < 0)
+        h5_throw("H5Screate", "scalar");
     return h5s;
 }
 
@@ -112,7 +120,7 @@ void h5a_write(hid_t hid, const char* name, T val)
 {
     h5t<T>::init();
 
-    hid_t aid = H5Acreate(hid, name, h5t<T>::id, h5s_scalar(), H5P_DEFAULT, H5P_DEFAULT);
+    h5_handle aid(H5Acreate(hid, name, h5t<T>::id, h5s_scalar(), H5P_DEFAULT, H5P_DEFAULT), H5Aclose);
     if (aid < 0)
         h5_throw("H5Acreate", name);
 
@@ -120,7 +128,7 @@ void h5a_write(hid_t hid, const char* name, T val)
     if (err < 0)
         h5_throw("H5Awrite", name);
 
-    err = H5Aclose(aid);
+    err = aid.close();
     if (err < 0)
         h5_throw("H5Aclose", name);
 }
diff --git a/libvvhd/src/vvhdf_h5t.cpp b/libvvhd/src/vvhdf_h5t.cpp
index c651b56..87b5e97 100644
--- a/libvvhd/src/vvhdf_h5t.cpp
+++ b/libvvhd/src/vvhdf_h5t.cpp
@@ -33,43 +33,62 @@ template<> hid_t h5t<double>::init() {return id;}
 template<> hid_t h5t<TVec>::init()
 {
     if (id >= 0) return id;
-    id = H5Tcreate(H5T_COMPOUND, 16);
-    H5Tinsert(id, "x", 0, H5T_NATIVE_DOUBLE);
-    H5Tinsert(id, "y", 8, H5T_NATIVE_DOUBLE);
-    H5Tpack(id);
-    return id;
+    h5_handle type(H5Tcreate(H5T_COMPOUND, 16), H5Tclose);
+    if (type < 0)
+        h5_throw("H5Tcreate", name);
+    if (H5Tinsert(type, "x", 0, H5T_NATIVE_DOUBLE) < 0 ||
+        H5Tinsert(type, "y", 8, H5T_NATIVE_DOUBLE) < 0)
+        h5_throw("H5Tinsert", name);
+    if (H5Tpack(type) < 0)
+        h5_throw("H5Tpack", name);
+    return id = type.release();
 }
 template<> hid_t h5t<TVec3D>::init()
 {
     if (id >= 0) return id;
-    id = H5Tcreate(H5T_COMPOUND, 24);
-    H5Tinsert(id, "x", 0, H5T_NATIVE_DOUBLE);
-    H5Tinsert(id, "y", 8, H5T_NATIVE_DOUBLE);
-    H5Tinsert(id, "o", 16, H5T_NATIVE_DOUBLE);
-    H5Tpack(id);
-    return id;
+    h5_handle type(H5Tcreate(H5T_COMPOUND, 24), H5Tclose);
+    if (type < 0)
+        h5_throw("H5Tcreate", name);
+    if (H5Tinsert(type, "x", 0, H5T_NATIVE_DOUBLE) < 0 ||
+        H5Tinsert(type, "y", 8, H5T_NATIVE_DOUBLE) < 0 ||
+        H5Tinsert(type, "o", 16, H5T_NATIVE_DOUBLE) < 0)
+        h5_throw("H5Tinsert", name);
+    if (H5Tpack(type) < 0)
+        h5_throw("H5Tpack", name);
+    return id = type.release();
 }
 template<> hid_t h5t<const char*>::init()
 {
     if (id >= 0) return id;
-    id = H5Tcopy(H5T_C_S1);
-    H5Tset_size(id, H5T_VARIABLE);
-    return id;
+    h5_handle type(H5Tcopy(H5T_C_S1), H5Tclose);
+    if (type < 0)
+        h5_throw("H5Tcopy", name);
+    if (H5Tset_size(type, H5T_VARIABLE) < 0)
+        h5_throw("H5Tset_size", name);
+    return id = type.release();
 }
 template<> hid_t h5t<TTime>::init()
 {
     if (id >= 0) return id;
-    id = H5Tcreate(H5T_COMPOUND, 8);
-    H5Tinsert(id, "value", 0, H5T_STD_I32LE);
-    H5Tinsert(id, "timescale", 4, H5T_STD_U32LE);
-    return id;
+    h5_handle type(H5Tcreate(H5T_COMPOUND, 8), H5Tclose);
+    if (type < 0)
+        h5_throw("H5Tcreate", name);
+    if (H5Tinsert(type, "value", 0, H5T_STD_I32LE) < 0 ||
+        H5Tinsert(type, "timescale", 4, H5T_STD_U32LE) < 0)
+        h5_throw("H5Tinsert", name);
+    return id = type.release();
 }
 
 // COMMIT
 template<typename T>
 void h5t<T>::commit(hid_t hid)
 {
-    if (id < 0 || H5Tcommitted(id))
+    if (id < 0)
+        return;
+    htri_t committed = H5Tcommitted(id);
+    if (committed < 0)
+        h5_throw("H5Tcommitted", name);
+    if (committed)
         return;
     herr_t err = H5Tcommit(hid, name, id, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
     if (err < 0)
@@ -127,3 +146,19 @@ void h5t_close_all()
     h5t_close<const char*>();
     h5t_close<TTime>();
 }
+
+template<typename T>
+static void h5t_release()
+{
+    if (h5t<T>::id >= 0)
+        H5Tclose(h5t<T>::id);
+    h5t<T>::id = -1;
+}
+
+h5t_scope::~h5t_scope()
+{
+    h5t_release<TVec>();
+    h5t_release<TVec3D>();
+    h5t_release<const char*>();
+    h5t_release<TTime>();
+}
-- 
2.43.0


From b24636055deea8be4f47bae50608c7c7b3a6d24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 07/39] fix: loading keeps the order of more than 100 bodies

---
 libvvhd/src/TSpace_load_hdf.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index ecc79c5..1b7c72e 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -6,8 +6,15 @@
 #include "vvhdf.h"
 
 #include <array>
+#include <cstring>
 #include <map>
-typedef std::map<std::string, std::shared_ptr<TBody>> body_map_t;
+// body99 precedes body100
+struct body_name_less {
+    bool operator() (const std::string& a, const std::string& b) const {
+        return a.size() != b.size() ? a.size() < b.size() : a < b;
+    }
+};
+typedef std::map<std::string, std::shared_ptr<TBody>, body_name_less> body_map_t;
 
 static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& list)
 {
@@ -188,7 +195,7 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
 static herr_t list_bodies(hid_t g_id, const char* name, const H5L_info_t*, void *op_data)
 {
     body_map_t& body_map = *(body_map_t*)op_data;
-    if (std::string(name, 4) == "body") {
+    if (strncmp(name, "body", 4) == 0) {
         body_map[name] = std::make_shared<TBody>();
     }
     return 0;
-- 
2.43.0


From 975d227a6c708aa898a78f45eb11acccf12df11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 08/39] fix: a body without segments can be saved

---
 libvvhd/src/TSpace_save_hdf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index 740ab88..0ef9d9c 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -63,10 +63,10 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
 
     std::vector<std::array<double, 4>> att_array(N);
 
-    uint32_t general_slip = body.alist.front().slip;
+    uint32_t general_slip = body.alist.empty() ? 0 : body.alist.front().slip;
     std::vector<uint32_t> slip_array(N);
 
-    float heat_const = body.alist.front().heat_const;
+    float heat_const = body.alist.empty() ? 0 : body.alist.front().heat_const;
     std::vector<float> heat_array(N);
 
     for (hsize_t i=0; i<N; i++) {
@@ -82,7 +82,7 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
         can_simplify_heat &= (att.heat_const == heat_const);
     }
 
-    hsize_t chunkdims[2] = {std::min<hsize_t>(512, N), 4};
+    hsize_t chunkdims[2] = {std::max<hsize_t>(1, std::min<hsize_t>(512, N)), 4};
     h5_handle prop(H5Pcreate(H5P_DATASET_CREATE), H5Pclose);
     if (prop < 0)
         h5_throw("H5Pcreate", name);
-- 
2.43.0


From e4665eb01538e691da4a4917db47ce701334523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 09/39] fix: file names are never truncated nor captions used
 as formats

---
 libvvhd/headers/TTime.hpp |  2 +-
 libvvhd/src/TSpace.cpp    | 42 ++++++++++++++++++++++++++++++++-------
 utils/vvflow/vvflow.cpp   | 24 +++++++++++++---------
 3 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/libvvhd/headers/TTime.hpp b/libvvhd/headers/TTime.hpp
index 4ac5d3a..8c32b10 100644
--- a/libvvhd/headers/TTime.hpp
+++ b/libvvhd/headers/TTime.hpp
@@ -55,7 +55,7 @@ class TTime
         operator std::string() const
         {
             char buf[64];
-            sprintf(buf, "%d/%u", value, timescale);
+            snprintf(buf, sizeof(buf), "%d/%u", value, timescale);
             return std::string(buf);
         }
 
diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 3645ea4..aeb5b12 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -7,6 +7,7 @@
 
 #include <fstream>
 #include <limits>
+#include <stdexcept>
 using std::fstream;
 using std::ios;
 static const double d_inf = std::numeric_limits<double>::infinity();;
@@ -62,6 +63,34 @@ void Space::load(const char* fname, metainfo_t *info)
         h5_throw("H5Fclose", fname);
 }
 
+// Expands the step number pattern (%d with an optional width) of a file name
+static std::string format_filename(const char* format, int step)
+{
+    std::string res;
+    for (const char* c = format; *c; c++) {
+        if (*c != '%') {
+            res += *c;
+            continue;
+        }
+        if (*++c == '%') {
+            res += '%';
+            continue;
+        }
+        const bool zero = (*c == '0');
+        size_t width = 0;
+        while (*c >= '0' && *c <= '9' && width < 100)
+            width = width*10 + (*c++ - '0');
+        if (*c != 'd' && *c != 'i' && *c != 'u')
+            throw std::invalid_argument(std::string("Bad file name pattern '") + format + "'");
+        std::string digits = std::to_string(step);
+        const size_t sign = (zero && step < 0) ? 1 : 0;
+        if (digits.size() < width)
+            digits.insert(sign, width - digits.size(), zero ? '0' : ' ');
+        res += digits;
+    }
+    return res;
+}
+
 void Space::save(const char* format)
 {
     for (std::shared_ptr<TBody>& lbody: BodyList)
@@ -69,10 +98,9 @@ void Space::save(const char* format)
         lbody->validate(/*critical=*/true);
     }
 
-    char fname[64];
-    snprintf(fname, 64, format, int(time/dt+0.5));
+    const std::string fname = format_filename(format, int(time/dt+0.5));
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
-    h5_handle fid(H5Fcreate(fname, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), H5Fclose);
+    h5_handle fid(H5Fcreate(fname.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), H5Fclose);
     if (fid < 0)
         h5_throw("H5Fcreate", fname);
 
@@ -85,9 +113,9 @@ void Space::save(const char* format)
 
 FILE* Space::open_file(const char* format)
 {
-    char fname[64]; sprintf(fname, format, int(time/dt+0.5));
+    const std::string fname = format_filename(format, int(time/dt+0.5));
     FILE *fout;
-    fout = fopen(fname, "w");
+    fout = fopen(fname.c_str(), "w");
     if (!fout) { perror("Error opening file"); return NULL; }
     return fout;
 }
@@ -219,7 +247,7 @@ int Space::get_body_index(const TBody* body) const
 
 std::string Space::get_body_name(const TBody* body) const
 {
-    char name[8];
-    sprintf(name, "body%02d", get_body_index(body));
+    char name[16];
+    snprintf(name, sizeof(name), "body%02d", get_body_index(body));
     return std::string(name);
 }
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 4f5d477..fe81317 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -190,12 +190,20 @@ int simulate (lua_State *L) {
     #undef RAISE
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
 
-    char f_stepdata[256]; snprintf(f_stepdata, 256, "stepdata_%s.h5", S.caption.c_str());
-    char f_results[240]; snprintf(f_results, 240, "results_%s", S.caption.c_str());
-    char f_sensors_output[256]; snprintf(f_sensors_output, 256, "velocity_%s", S.caption.c_str());
-    mkdir(f_results, 0777);
+    const std::string f_stepdata = "stepdata_" + S.caption + ".h5";
+    const std::string f_results = "results_" + S.caption;
+    const std::string f_sensors_output = "velocity_" + S.caption;
+    mkdir(f_results.c_str(), 0777);
+
+    // the caption is not a part of the file name pattern
+    std::string f_snapshot;
+    for (char c: f_results) {
+        f_snapshot += c;
+        if (c == '%') f_snapshot += c;
+    }
+    f_snapshot += "/%06d.h5";
 
-    Stepdata stepdata = {&S, f_stepdata, !!opt::save_profile};
+    Stepdata stepdata = {&S, f_stepdata.c_str(), !!opt::save_profile};
 
     double dl = S.average_segment_length();
     double min_node_size = dl>0 ? dl*5 : 0;
@@ -205,7 +213,7 @@ int simulate (lua_State *L) {
     MEpsilonFast epsilon = {&S, &tr};
     MDiffusiveFast diffusive = {&S, &tr};
     MFlowmove flowmove = {&S};
-    sensors sens(&S, &convective, opt::sensors_file, f_sensors_output);
+    sensors sens(&S, &convective, opt::sensors_file, f_sensors_output.c_str());
     #ifdef OVERRIDEMOI
         S.BodyList->at(0)->overrideMoi_c(OVERRIDEMOI);
     #endif
@@ -230,9 +238,7 @@ int simulate (lua_State *L) {
 
         if (S.time.divisibleBy(S.dt_save)  && (double(S.time) >= 0))
         {
-            char tmp_filename[256];
-            snprintf(tmp_filename, 256, "%s/%%06d.h5", f_results);
-            S.save(tmp_filename);
+            S.save(f_snapshot.c_str());
             stepdata.flush();
         }
 
-- 
2.43.0


From 7c8506664be1ecc215e72a5bd329ed88f9c90916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 10/39] fix: truncated or malformed legacy snapshots are
 rejected

---
 libvvhd/src/TSpace_load_v13.cpp | 146 ++++++++++++++++++++------------
 1 file changed, 92 insertions(+), 54 deletions(-)

diff --git a/libvvhd/src/TSpace_load_v13.cpp b/libvvhd/src/TSpace_load_v13.cpp
index b6f1897..e56d558 100644
--- a/libvvhd/src/TSpace_load_v13.cpp
+++ b/libvvhd/src/TSpace_load_v13.cpp
@@ -1,5 +1,9 @@
 #include "TSpace.hpp"
 
+#include <stdexcept>
+#include <string>
+#include <vector>
+
 static int eq(const char *str1, const char *str2)
 {
     for (int i=0; i<8; i++)
@@ -9,71 +13,102 @@ static int eq(const char *str1, const char *str2)
     return 9;
 }
 
-static void LoadList(std::vector<TObj> &list, FILE* fin)
+namespace {
+    // A file that is closed at the end of the scope and never read partly.
+    class v13_file {
+        public:
+            explicit v13_file(const char* fname): file(fopen(fname, "rb")) {
+                if (!file)
+                    throw std::runtime_error(std::string("can not open ") + fname);
+            }
+            v13_file(const v13_file&) = delete;
+            v13_file& operator= (const v13_file&) = delete;
+            ~v13_file() { fclose(file); }
+
+            void seek(int64_t pos) {
+                if (fseek(file, pos, SEEK_SET))
+                    throw std::runtime_error("bad offset in a v1.3 file");
+            }
+
+            void read(void* buf, size_t size) {
+                if (fread(buf, 1, size, file) != size)
+                    throw std::runtime_error("unexpected end of a v1.3 file");
+            }
+
+            template<typename T> T get() {
+                T ret;
+                read(&ret, sizeof(T));
+                return ret;
+            }
+
+        private:
+            FILE* file;
+    };
+}
+
+static void LoadList(std::vector<TObj> &list, v13_file& fin)
 {
-    int64_t size;
-    (void)fread(&size, 8, 1, fin);
+    int64_t size = fin.get<int64_t>();
+    if (size < 0)
+        throw std::runtime_error("bad list size in a v1.3 file");
     TObj obj;
     for (int64_t i=0; i<size; i++)
     {
-        fread(&obj, 24, 1, fin);
+        fin.read(&obj, 24);
         list.push_back(obj);
     }
 }
 
-static void read_shell_script(FILE* file, TEval &script)
+static void read_shell_script(v13_file& file, TEval &script)
 {
-    int32_t len;
-    fread(&len, 4, 1, file);
-    char str[len+1];
-    fread(&str, 1, len, file);
-    str[len] = 0;
-    script = str;
+    int32_t len = file.get<int32_t>();
+    if (len < 0 || len > 0xFFFF)
+        throw std::runtime_error("bad expression length in a v1.3 file");
+    std::vector<char> str(len+1, 0);
+    file.read(str.data(), len);
+    script = str.data();
 }
 
 void Space::load_v13(const char* fname)
 {
-    FILE *fin = fopen(fname, "rb");
-    if (!fin) { perror("Error loading the space"); return; }
+    v13_file fin(fname);
 
     //loading different lists
     int64_t tmp = 0;
     char comment[9] = {};
     for (int i=0; i<64; i++)
     {
-        fseek(fin, i*16, SEEK_SET);
-        fread(&tmp, 8, 1, fin);
-        fread(comment, 8, 1, fin);
+        fin.seek(i*16);
+        fin.read(&tmp, 8);
+        fin.read(comment, 8);
         if (!tmp) continue;
-        fseek(fin, tmp, SEEK_SET);
+        fin.seek(tmp);
 
         if (eq(comment, "Header  ")>8)
         {
-            char version[8]; fread(&version, 8, 1, fin);
+            char version[9] = {};
+            fin.read(version, 8);
             if (eq(version, "v: 1.3  ") <= 8)
-            {
-                fprintf(stderr, "Cant read binary file version \"%s\".\n", version);
-                exit(1);
-            }
+                throw std::runtime_error(std::string("can not read binary file version ") + version);
 
-            char name[64];
-            fread(name, 1, 64, fin);
+            char name[65] = {};
+            fin.read(name, 64);
             caption = name;
-            fread(&time, 8, 1, fin);
-            fread(&dt, 8, 1, fin);
-            fread(&dt_save, 8, 1, fin);
-            fread(&dt_streak, 8, 1, fin);
-            fread(&dt_profile, 8, 1, fin);
-            fread(&re, 8, 1, fin);
-            fread(&pr, 8, 1, fin);
-            fread(&inf_marker, 16, 1, fin);
+            fin.read(&time, 8);
+            fin.read(&dt, 8);
+            fin.read(&dt_save, 8);
+            fin.read(&dt_streak, 8);
+            fin.read(&dt_profile, 8);
+            fin.read(&re, 8);
+            fin.read(&pr, 8);
+            fin.read(&inf_marker, 16);
             read_shell_script(fin, inf_vx);
             read_shell_script(fin, inf_vy);
-            fread(&inf_g, 8, 1, fin);
-            fread(&gravity, 16, 1, fin);
-            fread(&finish, 8, 1, fin);
+            fin.read(&inf_g, 8);
+            fin.read(&gravity, 16);
+            fin.read(&finish, 8);
 
-            int64_t rawtime; fread(&rawtime, 8, 1, fin);
+            fin.get<int64_t>(); // creation time
         }
         else if (eq(comment, "Vortexes")>8) LoadList(VortexList, fin);
         else if (eq(comment, "Heat    ")>8) LoadList(HeatList, fin);
@@ -83,39 +118,43 @@ void Space::load_v13(const char* fname)
         {
             std::shared_ptr<TBody> body(new TBody());
 
-            fread(&body->holder, 24, 1, fin);
-            fread(&body->dpos, 24, 1, fin);
+            fin.read(&body->holder, 24);
+            fin.read(&body->dpos, 24);
             read_shell_script(fin, body->speed_x);
             read_shell_script(fin, body->speed_y);
             read_shell_script(fin, body->speed_o);
-            fread(&body->speed_slae, 24, 1, fin);
-            fread(&body->speed_slae_prev, 24, 1, fin);
+            fin.read(&body->speed_slae, 24);
+            fin.read(&body->speed_slae_prev, 24);
 
-            fread(&body->kspring, 24, 1, fin);
-            fread(&body->density, 8, 1, fin);
+            fin.read(&body->kspring, 24);
+            fin.read(&body->density, 8);
 
-            fread(&body->force_hydro, 24, 1, fin);
-            fread(&body->fdt_dead, 24, 1, fin);
-            fread(&body->friction_prev, 24, 1, fin);
+            fin.read(&body->force_hydro, 24);
+            fin.read(&body->fdt_dead, 24);
+            fin.read(&body->friction_prev, 24);
 
             BodyList.push_back(body);
         }
         else if (eq(comment, "Body    ")>8)
         {
+            if (BodyList.empty())
+                throw std::runtime_error("a v1.3 file describes a contour without a body");
             auto body = BodyList.back();
 
             TAtt att(0.0, 0.0);
-            int64_t size; fread(&size, 8, 1, fin);
+            int64_t size = fin.get<int64_t>();
+            if (size < 0)
+                throw std::runtime_error("bad body size in a v1.3 file");
             for (int64_t i=0; i<size; i++)
             {
                 int64_t bc, hc;
                 double heat_const;
-                fread(&att.corner, 16, 1, fin);
-                fread(&att.g, 8, 1, fin);
-                fread(&bc, 8, 1, fin);
-                fread(&hc, 8, 1, fin);
-                fread(&heat_const, 8, 1, fin);
-                fread(&att.gsum, 8, 1, fin);
+                fin.read(&att.corner, 16);
+                fin.read(&att.g, 8);
+                fin.read(&bc, 8);
+                fin.read(&hc, 8);
+                fin.read(&heat_const, 8);
+                fin.read(&att.gsum, 8);
                 att.heat_const = heat_const;
                 if (bc == 'l' || bc == 'n')
                     att.slip = bc == 'l';
@@ -140,8 +179,7 @@ void Space::load_v13(const char* fname)
             body->doFillProperties();
         }
         else {
-            fprintf(stderr, "S->Load(): ignoring field \"%s\"\n", comment);
-            exit(-1);
+            throw std::runtime_error(std::string("unknown field in a v1.3 file: ") + comment);
         }
     }
 
-- 
2.43.0


From 2d381afe84dfae8c9716f6faade7677a6fd77ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 11/39] fix: the time series reports failures, closes its
 identifiers and keeps body names

---
 libvvhd/headers/MStepdata.hpp |   2 +-
 libvvhd/src/MStepdata.cpp     | 192 +++++++++++++++++-----------------
 2 files changed, 97 insertions(+), 97 deletions(-)

diff --git a/libvvhd/headers/MStepdata.hpp b/libvvhd/headers/MStepdata.hpp
index 3da5c8b..ada8924 100644
--- a/libvvhd/headers/MStepdata.hpp
+++ b/libvvhd/headers/MStepdata.hpp
@@ -15,6 +15,7 @@ class Stepdata
         void flush();
 
     private:
+        Stepdata(Space* S, bool b_save_profile);
         int64_t h5d_init(int64_t loc_id, const char *name, size_t rows, size_t cols);
         void append(int64_t h5d, const void* buf);
         void append(int64_t h5d, double value);
@@ -30,7 +31,6 @@ class Stepdata
         std::vector<int64_t> force_hydro_h5d;
         std::vector<int64_t> force_holder_h5d;
         std::vector<int64_t> force_friction_h5d;
-        std::vector<int64_t> nusselt_h5d;
         std::vector<int64_t> position_h5d;
         std::vector<int64_t> spring_h5d;
         std::vector<int64_t> speed_h5d;
diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index b2b022e..f309e68 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -7,35 +7,38 @@
 
 #include <limits>
 
+static bool h5l_exists(hid_t loc_id, const char* name)
+{
+    htri_t exists = H5Lexists(loc_id, name, H5P_DEFAULT);
+    if (exists < 0)
+        h5_throw("H5Lexists", name);
+    return exists > 0;
+}
+
 static const float f_nan = std::numeric_limits<float>::quiet_NaN();
 
-Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
+Stepdata::Stepdata(Space* S, bool b_save_profile):
     S(S),
     b_save_profile(b_save_profile),
     blsize(S->BodyList.size()),
     last_flush_time(0),
-    h5f(),
+    h5f(-1),
     time_h5d(-1),
-    force_hydro_h5d(),
-    force_holder_h5d(),
-    force_friction_h5d(),
-    nusselt_h5d(),
-    position_h5d(),
-    spring_h5d(),
-    speed_h5d(),
-    pressure_h5d(),
-    friction_h5d()
+    force_hydro_h5d(blsize, -1),
+    force_holder_h5d(blsize, -1),
+    force_friction_h5d(blsize, -1),
+    position_h5d(blsize, -1),
+    spring_h5d(blsize, -1),
+    speed_h5d(blsize, -1),
+    pressure_h5d(blsize, -1),
+    friction_h5d(blsize, -1)
 {
-    force_hydro_h5d.resize(blsize, -1);
-    force_holder_h5d.resize(blsize, -1);
-    force_friction_h5d.resize(blsize, -1);
-    nusselt_h5d.resize(blsize, -1);
-    position_h5d.resize(blsize, -1);
-    spring_h5d.resize(blsize, -1);
-    speed_h5d.resize(blsize, -1);
-    pressure_h5d.resize(blsize, -1);
-    friction_h5d.resize(blsize, -1);
+}
 
+// The identifiers opened so far are closed by the destructor if this fails.
+Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
+    Stepdata(S, b_save_profile)
+{
     size_t rows = 0;
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
     if (H5Fis_hdf5(fname)<=0)
@@ -44,6 +47,7 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
         if (h5f < 0)
             h5_throw("H5Fcreate", fname);
 
+        h5t_scope types;
         h5a_write<std::string const&>(h5f, "caption",  S->caption);
         h5a_write<const char*>(h5f, "git_rev",  libvvhd_gitrev);
         h5a_write<const char*>(h5f, "git_info", libvvhd_gitinfo);
@@ -53,28 +57,29 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
     } else {
         h5f = H5Fopen(fname, H5F_ACC_RDWR, H5P_DEFAULT);
         if (h5f < 0)
-            h5_throw("H5Fcreate", fname);
+            h5_throw("H5Fopen", fname);
 
         // TODO update git_info, git_diff
-        if (H5Lexists(h5f, "time", H5P_DEFAULT))
+        if (h5l_exists(h5f, "time"))
         {
-            hid_t h5d = H5Dopen(h5f, "time", H5P_DEFAULT);
+            h5_handle h5d(H5Dopen(h5f, "time", H5P_DEFAULT), H5Dclose);
             if (h5d < 0)
                 h5_throw("H5Dopen", "time");
-            hid_t h5s = H5Dget_space(h5d);
+            h5_handle h5s(H5Dget_space(h5d), H5Sclose);
             if (h5s < 0)
                 h5_throw("H5Dget_space", "time");
             hsize_t dims[2];
-            H5Sget_simple_extent_dims(h5s, dims, NULL);
-            float* tbuf = new float[dims[0]*dims[1]];
-            H5Dread(h5d, H5T_NATIVE_FLOAT, h5s, h5s, H5P_DEFAULT, tbuf);
+            if (H5Sget_simple_extent_ndims(h5s) != 2)
+                h5_throw("H5Sget_simple_extent_ndims", "time");
+            if (H5Sget_simple_extent_dims(h5s, dims, NULL) < 0)
+                h5_throw("H5Sget_simple_extent_dims", "time");
+            std::vector<float> tbuf(dims[0]*dims[1]);
+            if (H5Dread(h5d, H5T_NATIVE_FLOAT, h5s, h5s, H5P_DEFAULT, tbuf.data()) < 0)
+                h5_throw("H5Dread", "time");
             for (rows=0; rows<dims[0] && tbuf[rows*dims[1]] < float(S->time); rows++)
             {
                 /* DO NOTHING */;
             }
-            H5Sclose(h5s);
-            H5Dclose(h5d);
-            delete [] tbuf;
         }
     }
 
@@ -82,24 +87,21 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
     for (auto& lbody: S->BodyList)
     {
         size_t body_n = S->get_body_index(lbody.get());
-        if (body_n > blsize) continue;
-        const char *bname = S->get_body_name(lbody.get()).c_str();
-        hid_t body_h5g;
-        if (!H5Lexists(h5f, bname, H5P_DEFAULT))
-        {
-            body_h5g = H5Gcreate(h5f, bname, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-            if (body_h5g < 0)
-                h5_throw("H5Gcreate", bname);
-        } else {
-            body_h5g = H5Gopen(h5f, bname, H5P_DEFAULT);
-            if (body_h5g < 0)
-                h5_throw("H5Gopen", bname);
-        }
+        if (body_n >= blsize) continue;
+        const std::string body_name = S->get_body_name(lbody.get());
+        const char *bname = body_name.c_str();
+        bool exists = h5l_exists(h5f, bname);
+        h5_handle body_h5g(
+            exists
+            ? H5Gopen(h5f, bname, H5P_DEFAULT)
+            : H5Gcreate(h5f, bname, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),
+            H5Gclose);
+        if (body_h5g < 0)
+            h5_throw(exists ? "H5Gopen" : "H5Gcreate", bname);
 
         force_hydro_h5d[body_n]    = h5d_init(body_h5g, "force_hydro", rows, 3);
         force_holder_h5d[body_n]   = h5d_init(body_h5g, "force_holder", rows, 3);
         force_friction_h5d[body_n] = h5d_init(body_h5g, "force_friction", rows, 3);
-        // nusselt_h5d[body_n]        = h5d_init(body_h5g, "nusselt", rows, 1);
         position_h5d[body_n]       = h5d_init(body_h5g, "holder_position", rows, 3);
         spring_h5d[body_n]         = h5d_init(body_h5g, "delta_position", rows, 3);
         speed_h5d[body_n]          = h5d_init(body_h5g, "speed_slae", rows, 3);
@@ -108,33 +110,29 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
             pressure_h5d[body_n]   = h5d_init(body_h5g, "pressure", rows, lbody->size());
             friction_h5d[body_n]   = h5d_init(body_h5g, "friction", rows, lbody->size());
         } else {
-            if (H5Lexists(body_h5g, "pressure", H5P_DEFAULT) > 0)
-            {
-                // shrink dataset
-                hid_t h5d = h5d_init(body_h5g, "pressure", rows, lbody->size());
-                H5Dclose(h5d);
-            }
-            if (H5Lexists(body_h5g, "friction", H5P_DEFAULT) > 0)
+            for (const char* name: {"pressure", "friction"})
             {
+                if (!h5l_exists(body_h5g, name)) continue;
                 // shrink dataset
-                hid_t h5d = h5d_init(body_h5g, "friction", rows, lbody->size());
-                H5Dclose(h5d);
+                h5_handle h5d(h5d_init(body_h5g, name, rows, lbody->size()), H5Dclose);
+                if (h5d.close() < 0)
+                    h5_throw("H5Dclose", name);
             }
         }
 
-        H5Gclose(body_h5g);
+        if (body_h5g.close() < 0)
+            h5_throw("H5Gclose", bname);
     }
 }
 
 Stepdata::~Stepdata()
 {
-    H5Dclose(time_h5d);
+    if (time_h5d >= 0) H5Dclose(time_h5d);
     for (size_t i=0; i<blsize; i++)
     {
         if (force_hydro_h5d[i]    >= 0) H5Dclose(force_hydro_h5d[i]);
         if (force_holder_h5d[i]   >= 0) H5Dclose(force_holder_h5d[i]);
         if (force_friction_h5d[i] >= 0) H5Dclose(force_friction_h5d[i]);
-        if (nusselt_h5d[i]        >= 0) H5Dclose(nusselt_h5d[i]);
         if (position_h5d[i]       >= 0) H5Dclose(position_h5d[i]);
         if (spring_h5d[i]         >= 0) H5Dclose(spring_h5d[i]);
         if (speed_h5d[i]          >= 0) H5Dclose(speed_h5d[i]);
@@ -142,7 +140,7 @@ Stepdata::~Stepdata()
         if (friction_h5d[i]       >= 0) H5Dclose(friction_h5d[i]);
     }
 
-    H5Fclose(h5f);
+    if (h5f >= 0) H5Fclose(h5f);
 }
 
 void Stepdata::flush()
@@ -157,11 +155,10 @@ void Stepdata::write()
     for (auto& lbody: S->BodyList)
     {
         size_t body_n = S->get_body_index(lbody.get());
-        if (body_n > blsize) continue;
+        if (body_n >= blsize) continue;
         append(force_hydro_h5d[body_n], lbody->force_hydro);
         append(force_holder_h5d[body_n], lbody->force_holder);
         append(force_friction_h5d[body_n], lbody->friction);
-        append(nusselt_h5d[body_n], lbody->nusselt);
         append(position_h5d[body_n], lbody->holder);
         append(spring_h5d[body_n], lbody->dpos);
         append(speed_h5d[body_n], lbody->speed_slae);
@@ -186,7 +183,8 @@ void Stepdata::write()
     clock_gettime(CLOCK_MONOTONIC, &clk);
     if (clk.tv_sec - last_flush_time > 20)
     {
-        H5Fflush(h5f, H5F_SCOPE_GLOBAL);
+        if (H5Fflush(h5f, H5F_SCOPE_GLOBAL) < 0)
+            h5_throw("H5Fflush", "stepdata");
         last_flush_time = clk.tv_sec;
     }
 }
@@ -203,11 +201,11 @@ void Stepdata::append(int64_t h5d, const void *buf)
     hsize_t ext[2];
     hsize_t offset[2];
 
-    hid_t h5s_file = H5Dget_space(h5d);
-    if (h5s_file < 0)
+    h5_handle h5s_old(H5Dget_space(h5d), H5Sclose);
+    if (h5s_old < 0)
         h5_throw("H5Dget_space", "append, 1");
 
-    err = H5Sget_simple_extent_dims(h5s_file, dims, NULL);
+    err = H5Sget_simple_extent_dims(h5s_old, dims, NULL);
     if (err < 0)
         h5_throw("H5Sget_simple_extent_dims", "append, 1");
 
@@ -220,8 +218,7 @@ void Stepdata::append(int64_t h5d, const void *buf)
     if (err < 0)
         h5_throw("H5Dset_extent", "append, 1");
 
-    H5Sclose(h5s_file);
-    h5s_file = H5Dget_space(h5d);
+    h5_handle h5s_file(H5Dget_space(h5d), H5Sclose);
     if (h5s_file < 0)
         h5_throw("H5Dget_space", "append, 2");
 
@@ -229,16 +226,13 @@ void Stepdata::append(int64_t h5d, const void *buf)
     if (err < 0)
         h5_throw("H5Sselect_hyperslab", "append, 2");
 
-    hid_t h5s_mem = H5Screate_simple(2, ext, NULL);
+    h5_handle h5s_mem(H5Screate_simple(2, ext, NULL), H5Sclose);
     if (h5s_mem < 0)
         h5_throw("H5Screate_simple", "append, 2");
 
     err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, h5s_mem, h5s_file, H5P_DEFAULT, buf);
     if (err < 0)
         h5_throw("H5Dwrite", "append, 2");
-
-    H5Sclose(h5s_file);
-    H5Sclose(h5s_mem);
 }
 
 void Stepdata::append(int64_t h5d, double value)
@@ -254,37 +248,43 @@ void Stepdata::append(int64_t h5d, TVec3D value)
 
 int64_t Stepdata::h5d_init(int64_t loc_id, const char *name, size_t rows, size_t cols)
 {
-    hid_t h5d;
-    herr_t err;
-    if (H5Lexists(loc_id, name, H5P_DEFAULT))
+    if (h5l_exists(loc_id, name))
     {
-        h5d = H5Dopen(loc_id, name, H5P_DEFAULT);
-        hid_t h5s = H5Dget_space(h5d);
+        h5_handle h5d(H5Dopen(loc_id, name, H5P_DEFAULT), H5Dclose);
+        if (h5d < 0)
+            h5_throw("H5Dopen", name);
+        h5_handle h5s(H5Dget_space(h5d), H5Sclose);
+        if (h5s < 0)
+            h5_throw("H5Dget_space", name);
+        if (H5Sget_simple_extent_ndims(h5s) != 2)
+            h5_throw("H5Sget_simple_extent_ndims", name);
 
-        hsize_t cur_dims[2];
         hsize_t new_dims[2] = {rows, cols};
-        err = H5Sget_simple_extent_dims(h5s, cur_dims, NULL);
-        if (err < 0)
-            h5_throw("H5Sget_simple_extent_dims", name);
-        err = H5Dset_extent(h5d, new_dims);
-        if (err < 0)
+        if (H5Dset_extent(h5d, new_dims) < 0)
             h5_throw("H5Dset_extent", name);
-        H5Sclose(h5s);
-    } else {
-        hid_t h5p = H5Pcreate(H5P_DATASET_CREATE);
-        hsize_t chunk_dims[2] = {0x80, cols};
-        H5Pset_chunk(h5p, 2, chunk_dims);
-        H5Pset_deflate(h5p, 9);
-        H5Pset_fill_value(h5p, H5T_NATIVE_FLOAT, &f_nan);
-        H5Pset_fill_time(h5p, H5D_FILL_TIME_ALLOC);
-
-        hsize_t cur_dims[2] = {rows, cols};
-        hsize_t max_dims[2] = {H5S_UNLIMITED, cols};
-        hid_t h5s = H5Screate_simple(2, cur_dims, max_dims);
-        h5d = H5Dcreate(loc_id, name, H5T_NATIVE_FLOAT, h5s, H5P_DEFAULT, h5p, H5P_DEFAULT);
-        H5Sclose(h5s);
-        H5Pclose(h5p);
+        return h5d.release();
     }
 
-    return h5d;
+    h5_handle h5p(H5Pcreate(H5P_DATASET_CREATE), H5Pclose);
+    if (h5p < 0)
+        h5_throw("H5Pcreate", name);
+    hsize_t chunk_dims[2] = {0x80, cols};
+    if (H5Pset_chunk(h5p, 2, chunk_dims) < 0)
+        h5_throw("H5Pset_chunk", name);
+    if (H5Pset_deflate(h5p, 9) < 0)
+        h5_throw("H5Pset_deflate", name);
+    if (H5Pset_fill_value(h5p, H5T_NATIVE_FLOAT, &f_nan) < 0)
+        h5_throw("H5Pset_fill_value", name);
+    if (H5Pset_fill_time(h5p, H5D_FILL_TIME_ALLOC) < 0)
+        h5_throw("H5Pset_fill_time", name);
+
+    hsize_t cur_dims[2] = {rows, cols};
+    hsize_t max_dims[2] = {H5S_UNLIMITED, cols};
+    h5_handle h5s(H5Screate_simple(2, cur_dims, max_dims), H5Sclose);
+    if (h5s < 0)
+        h5_throw("H5Screate_simple", name);
+    h5_handle h5d(H5Dcreate(loc_id, name, H5T_NATIVE_FLOAT, h5s, H5P_DEFAULT, h5p, H5P_DEFAULT), H5Dclose);
+    if (h5d < 0)
+        h5_throw("H5Dcreate", name);
+    return h5d.release();
 }
-- 
2.43.0


From 9619c9387fbdd2258e532f153439a3b594bfb381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 12/39] fix: vvxtract names lists and bodies correctly and
 copes with empty bodies

---
 utils/vvxtract/vvxtract.cpp | 39 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 04fa51c..be47e56 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -68,7 +68,11 @@ int main(int argc, char **argv)
             }
             return 0;
         };
-        H5Ovisit(fid, H5_INDEX_NAME, H5_ITER_NATIVE, h5o_iter, NULL);
+        if (H5Ovisit(fid, H5_INDEX_NAME, H5_ITER_NATIVE, h5o_iter, NULL) < 0)
+        {
+            fprintf(stderr, "%s: can't list file '%s'\n", argv[0], opt::input);
+            return 2;
+        }
         return 0;
     }
 
@@ -83,7 +87,7 @@ int main(int argc, char **argv)
         }
     }
 
-    if (opt::b_info && H5Aexists(fid, "dt")) {
+    if (opt::b_info && H5Aexists(fid, "dt") > 0) {
         Space S;
         S.load_hdf(fid);
 
@@ -103,20 +107,16 @@ int main(int argc, char **argv)
         printf("-- #S.body_list = %zd -- number of elements\n", long(S.BodyList.size()));
         printf("-- #S.vort_list = %zd\n", long(S.VortexList.size()));
         printf("-- #S.sink_list = %zd\n", long(S.SourceList.size()));
-        printf("-- #S.streak_source_list = %zd\n", long(S.StreakList.size()));
-        printf("-- #S.streak_domain_list = %zd\n", long(S.StreakSourceList.size()));
+        printf("-- #S.streak_source_list = %zd\n", long(S.StreakSourceList.size()));
+        printf("-- #S.streak_domain_list = %zd\n", long(S.StreakList.size()));
 
         for (shared_ptr<TBody>& lbody: S.BodyList)
         {
             const TBody& b = *lbody;
             printf("\n");
-            const char* blabel;
+            const std::string label = b.label.empty() ? S.get_body_name(&b) : b.label;
+            const char* blabel = label.c_str();
             printf("-- %s (%s)", S.get_body_name(&b).c_str(), b.label.c_str());
-            if (!b.label.empty()){
-                blabel = b.label.c_str();
-            } else {
-                blabel = S.get_body_name(&b).c_str();
-            }
             printf("\n");
             #define S2D(v) v.x, v.y
             #define S3D(v) v.r.x, v.r.y, v.o
@@ -136,7 +136,7 @@ int main(int argc, char **argv)
             printf("%s.collision_max = {%lg, %lg, %lg} -- .d = %lg\n", blabel, S4D(b.collision_max));
             printf("%s.bounce = %lg\n", blabel, b.bounce);
 
-            uint32_t slip = b.alist.begin()->slip;
+            uint32_t slip = b.alist.empty() ? 0 : b.alist.front().slip;
             for (auto& latt: b.alist) {
                 if (latt.slip != slip) {
                     slip = 3;
@@ -150,13 +150,8 @@ int main(int argc, char **argv)
                 printf("%s.root = nil\n", blabel);
             } else {
                 shared_ptr<TBody> lroot = b.root_body.lock();
-                const char* rlabel;
-                if (!lroot->label.empty()){
-                    rlabel = lroot->label.c_str();
-                } else {
-                    rlabel = S.get_body_name(lroot.get()).c_str();
-                }
-                printf("%s.root = %s\n", blabel, rlabel);
+                const std::string rlabel = lroot->label.empty() ? S.get_body_name(lroot.get()) : lroot->label;
+                printf("%s.root = %s\n", blabel, rlabel.c_str());
             }
 
             printf("-- #%s = %zd -- number of segments\n", blabel, b.size());
@@ -205,8 +200,12 @@ int main(int argc, char **argv)
             return 5;
         }
 
-        hsize_t dims[ndims];
-        H5Sget_simple_extent_dims(dataspace, dims, NULL);
+        hsize_t dims[2];
+        if (H5Sget_simple_extent_dims(dataspace, dims, NULL) < 0)
+        {
+            fprintf(stderr, "can't read dataspace '%s'\n", dat.label);
+            return 5;
+        }
         dat.rows = dims[0];
         dat.cols = dims[1];
         dat.mem.resize(dat.rows*dat.cols);
-- 
2.43.0


From 0b146edce8450ca516bb7157b2440d49f4a9e387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 13/39] fix: a field file without a full grid is rejected,
 percentile of an empty field is defined

---
 libvvhd/src/XField.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index f9af7cd..cbfb3aa 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -10,7 +10,7 @@ XField::XField(
 ):
     xmin(xmin), ymin(ymin), dxdy(dxdy),
     xres(xres), yres(yres),
-    map(new float[xres*yres]),
+    map(nullptr),
     gaps(),
     evaluated(false)
 {
@@ -22,12 +22,14 @@ XField::XField(
         throw std::invalid_argument("XField(): dxdy must be finite");
     if (dxdy <= 0)
         throw std::invalid_argument("XField(): dxdy must be positive");
+
+    map = new float[size_t(xres)*yres];
 }
 
 XField::XField(const std::string& str):
     xmin(0), ymin(0), dxdy(0),
     xres(0), yres(0),
-    map(new float[xres*yres]),
+    map(nullptr),
     gaps(),
     evaluated(false)
 {
@@ -38,14 +40,14 @@ XField::XField(const std::string& str):
 
     const float* data = reinterpret_cast<const float*>(str.c_str());
     float N = data[0];
-    if (!std::isfinite(N) || N <= 1 || fmod(N, 1) != 0) {
+    if (!std::isfinite(N) || N <= 1 || fmod(N, 1) != 0 || N >= str.size()/sizeof(float)) {
         fprintf(stderr, "N = %lg\n", N);
         throw std::invalid_argument("XField(str): invalid data");
     }
 
     xres = N;
     yres = str.size()/sizeof(float)/(xres+1) - 1;
-    if (str.size() != sizeof(float)*(xres+1)*(yres+1))
+    if (yres <= 1 || str.size() != sizeof(float)*(xres+1)*(yres+1))
         throw std::invalid_argument("XField(str): can't factorize matrix");
 
     float dx = data[2] - data[1];
@@ -60,7 +62,7 @@ XField::XField(const std::string& str):
     xmin = data[1];
     ymin = data[1*(xres+1)];
     dxdy = data[2]-data[1];
-    map = new float[xres*yres];
+    map = new float[size_t(xres)*yres];
     for (int yj=0; yj<yres; yj++)
     {
         for (int xi=0; xi<xres; xi++)
@@ -116,7 +118,10 @@ float XField::percentile(float p) const
     auto it = std::copy_if(&map[0], &map[xres*yres], v.begin(), [](float x){return x!=0;});
     v.resize(std::distance(v.begin(),it));
 
-    size_t N = std::floor(v.size()*p);
+    if (v.empty())
+        return 0;
+
+    size_t N = std::max(size_t(1), size_t(std::floor(v.size()*p)));
     std::partial_sort(v.begin(), v.begin()+N, v.end(), cmp);
     return v[N-1];
 }
-- 
2.43.0


From e1e1078196bc0f37cbdc0037263559ceedce8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 14/39] fix: plot files replace earlier contents and failures
 to write them are reported

---
 utils/vvplot/gnuplotter.cpp | 133 ++++++++++++++++++++----------------
 1 file changed, 75 insertions(+), 58 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index f982b05..e9ad271 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -1,6 +1,8 @@
 #include "./gnuplotter.hpp"
 #include <sys/syscall.h>
 #include <cstring>
+#include <memory>
+#include <stdexcept>
 #include <errno.h>
 #include <fcntl.h> /* O_RDONLY */
 
@@ -13,104 +15,120 @@ Gnuplotter::Gnuplotter():
     files()
 {}
 
+// Frees the archive at the end of the scope.
+typedef std::unique_ptr<struct archive, int (*)(struct archive*)> archive_ptr;
+
+[[noreturn]] static void archive_throw(struct archive *a, const std::string& what)
+{
+    const char* err = archive_error_string(a);
+    throw std::runtime_error(what + ": " + (err ? err : "unknown error"));
+}
+
 static void archive(
     struct archive *a,
     const std::string& name,
     const std::string& data,
     int perm = 0644)
 {
-    struct archive_entry *e = archive_entry_new();
-    archive_entry_set_pathname(e, name.c_str());
-    archive_entry_set_size(e, data.size());
-    archive_entry_set_filetype(e, AE_IFREG);
-    archive_entry_set_perm(e, perm);
-    archive_write_header(a, e);
-    archive_write_data(a, data.c_str(), data.size());
-    archive_entry_free(e);
+    std::unique_ptr<struct archive_entry, void (*)(struct archive_entry*)>
+        e(archive_entry_new(), archive_entry_free);
+    archive_entry_set_pathname(e.get(), name.c_str());
+    archive_entry_set_size(e.get(), data.size());
+    archive_entry_set_filetype(e.get(), AE_IFREG);
+    archive_entry_set_perm(e.get(), perm);
+    if (archive_write_header(a, e.get()) != ARCHIVE_OK)
+        archive_throw(a, "Error writing '" + name + "'");
+    if (archive_write_data(a, data.c_str(), data.size()) != ssize_t(data.size()))
+        archive_throw(a, "Error writing '" + name + "'");
 }
 
 void Gnuplotter::save(const std::string& filename)
 {
-    struct archive *a = archive_write_new();
+    archive_ptr a(archive_write_new(), archive_write_free);
 
-    archive_write_set_format_pax_restricted(a);
-    archive_write_open_filename(a, filename.c_str());
+    archive_write_set_format_pax_restricted(a.get());
+    if (archive_write_open_filename(a.get(), filename.c_str()) != ARCHIVE_OK)
+        archive_throw(a.get(), "Error opening '" + filename + "'");
 
-    archive(a, "plot.gp", script.str(), 0755);
+    archive(a.get(), "plot.gp", script.str(), 0755);
     for (auto& f: files) {
-        archive(a, f.first, f.second);
+        archive(a.get(), f.first, f.second);
     }
 
-    archive_write_close(a);
-    archive_write_free(a);
+    if (archive_write_close(a.get()) != ARCHIVE_OK)
+        archive_throw(a.get(), "Error writing '" + filename + "'");
 }
 
 void Gnuplotter::load(const std::string& filename)
 {
-    ssize_t size;
+    archive_ptr a(archive_read_new(), archive_read_free);
+    archive_read_support_filter_all(a.get());
+    archive_read_support_format_all(a.get());
 
-    struct archive *a = archive_read_new();
-    archive_read_support_filter_all(a);
-    archive_read_support_format_all(a);
-
-    int rc = archive_read_open_filename(a, filename.c_str(), 16384);
-    if (rc != ARCHIVE_OK) {
-        std::string err = "Error opening '" + filename + "': ";
-        err += archive_error_string(a);
-        throw std::runtime_error(err);
-    }
+    int rc = archive_read_open_filename(a.get(), filename.c_str(), 16384);
+    if (rc != ARCHIVE_OK)
+        archive_throw(a.get(), "Error opening '" + filename + "'");
 
     while (true) {
-        int rc;
         struct archive_entry *entry;
-        rc = archive_read_next_header(a, &entry);
-        if (rc == ARCHIVE_FATAL) {
-            std::string err = "Error reading '" + filename + "': ";
-            err += archive_error_string(a);
-            throw std::runtime_error(err);
-        } else if (rc == ARCHIVE_EOF) {
+        rc = archive_read_next_header(a.get(), &entry);
+        if (rc == ARCHIVE_EOF) {
             break;
+        } else if (rc != ARCHIVE_OK && rc != ARCHIVE_WARN) {
+            archive_throw(a.get(), "Error reading '" + filename + "'");
         }
 
         std::string pathname = archive_entry_pathname(entry);
-        size_t esize = archive_entry_size(entry);
-        char buf[esize];
-
-        size_t rsize = archive_read_data(a, buf, esize);
-        if (rsize < 0) {
-            std::string err = "Error reading '" + filename + "' (" + pathname + "): ";
-            err += archive_error_string(a);
-            throw std::runtime_error(err);
+        std::string content;
+        char buf[16384];
+        ssize_t rsize;
+        while ((rsize = archive_read_data(a.get(), buf, sizeof(buf))) > 0) {
+            content.append(buf, rsize);
         }
+        if (rsize < 0)
+            archive_throw(a.get(), "Error reading '" + filename + "' (" + pathname + ")");
 
         if (pathname == "plot.gp") {
-            script.write(buf, rsize);
+            script << content;
         } else {
-            files[pathname] = std::string(buf, rsize);
+            files[pathname] = content;
         }
     }
+}
 
-    archive_read_free(a);
+[[noreturn]] static void errno_throw(const std::string& what)
+{
+    throw std::runtime_error(what + ": " + strerror(errno));
+}
+
+static void write_all(int fd, const std::string& data, const std::string& name)
+{
+    for (size_t done = 0; done < data.size();) {
+        ssize_t ws = write(fd, data.data() + done, data.size() - done);
+        if (ws < 0)
+            errno_throw("Error writing '" + name + "'");
+        done += ws;
+    }
 }
 
 void Gnuplotter::exec(const std::string& filename)
 {
     std::string script_str = script.str();
 
-    int fd = open(filename.c_str(), O_WRONLY|O_CREAT, 0644);
-    if (fd < 0) {
-        std::string err = "Error opening '" + filename + "': ";
-        err += strerror(errno);
-        throw std::runtime_error(err);
-    }
-    dup2(fd, 1);
+    int fd = open(filename.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
+    if (fd < 0)
+        errno_throw("Error opening '" + filename + "'");
+    if (dup2(fd, 1) < 0)
+        errno_throw("Error opening '" + filename + "'");
 
     for (auto& f: files) {
         std::string name = f.first;
         std::string content = f.second;
 
         int memfd = syscall(SYS_memfd_create, name.c_str(), 0);
-        size_t ws = write(memfd, content.data(), content.size());
+        if (memfd < 0)
+            errno_throw("Error creating '" + name + "'");
+        write_all(memfd, content, name);
 
         std::string old_str = strfmt("'%s'", name.c_str());
         std::string new_str = strfmt("'/dev/fd/%d'", memfd);
@@ -121,12 +139,11 @@ void Gnuplotter::exec(const std::string& filename)
     }
 
     int memfd = syscall(SYS_memfd_create, "plot.gp", 0);
-    size_t ws = write(memfd, script_str.data(), script_str.size());
+    if (memfd < 0)
+        errno_throw("Error creating 'plot.gp'");
+    write_all(memfd, script_str, "plot.gp");
 
     int rc = execlp("gnuplot", "gnuplot", strfmt("/dev/fd/%d", memfd).c_str(), NULL);
-    if (rc < 0) {
-        std::string err = "Error running gnuplot: ";
-        err += strerror(errno);
-        throw std::runtime_error(err);
-    }
+    if (rc < 0)
+        errno_throw("Error running gnuplot");
 }
-- 
2.43.0


From 1693f9fc39c3b483699fcd25717a6021554f2303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 15/39] fix: an empty legacy snapshot is an empty space

---
 libvvhd/src/TSpace_load_v13.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libvvhd/src/TSpace_load_v13.cpp b/libvvhd/src/TSpace_load_v13.cpp
index e56d558..8a58c92 100644
--- a/libvvhd/src/TSpace_load_v13.cpp
+++ b/libvvhd/src/TSpace_load_v13.cpp
@@ -25,6 +25,12 @@ namespace {
             v13_file& operator= (const v13_file&) = delete;
             ~v13_file() { fclose(file); }
 
+            bool empty() {
+                int c = fgetc(file);
+                if (c != EOF) ungetc(c, file);
+                return c == EOF;
+            }
+
             void seek(int64_t pos) {
                 if (fseek(file, pos, SEEK_SET))
                     throw std::runtime_error("bad offset in a v1.3 file");
@@ -72,6 +78,8 @@ static void read_shell_script(v13_file& file, TEval &script)
 void Space::load_v13(const char* fname)
 {
     v13_file fin(fname);
+    if (fin.empty())
+        return;
 
     //loading different lists
     int64_t tmp = 0;
-- 
2.43.0


From 4ea18da41e3a83274da8e065a689190a3ea4beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 16/39] fix: special segment number is checked and the matrix
 file name never cut

---
 libvvhd/src/MConvectiveFast.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index a8012f0..ad28768 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -897,7 +897,11 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
     int once = 0;
     for (auto& libody: S->BodyList)
     {
-        TAtt *special_segment = &libody->alist[libody->special_segment_no];
+        TAtt *special_segment = nullptr;
+        if (libody->special_segment_no >= 0 && size_t(libody->special_segment_no) < libody->size())
+            special_segment = &libody->alist[libody->special_segment_no];
+        else if (libody->size())
+            throw std::invalid_argument("MConvectiveFast::fill_matrix(): special_segment is out of range");
         for (auto& latt: libody->alist)
         {
             if (&latt != special_segment)
@@ -1006,12 +1010,11 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
     if (std::getenv("VVFLOW_SAVE_MATRIX") &&
         S->time.divisibleBy(S->dt_save) && (double(S->time) >= 0)
     ) {
-        char tmp_dirname[240];
-        snprintf(tmp_dirname, 240, "matrix_%s", S->caption.c_str());
-        mkdir(tmp_dirname, 0777);
+        std::string tmp_dirname = "matrix_" + S->caption;
+        mkdir(tmp_dirname.c_str(), 0777);
 
-        char tmp_filename[256];
-        snprintf(tmp_filename, 256, "%s/%06d.txt", tmp_dirname, int(S->time/S->dt+0.5));
-        matrix.save(tmp_filename);
+        char step_no[32];
+        snprintf(step_no, sizeof(step_no), "/%06d.txt", int(S->time/S->dt+0.5));
+        matrix.save((tmp_dirname + step_no).c_str());
     }
 }
-- 
2.43.0


From d64c51161abdf1e2d11b22017c6b0f8c2b3e3668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 17/39] fix: a failing expression no longer throws out of a
 critical section

---
 libvvhd/src/TEval.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/libvvhd/src/TEval.cpp b/libvvhd/src/TEval.cpp
index 4fe2f0d..a0d4fd2 100644
--- a/libvvhd/src/TEval.cpp
+++ b/libvvhd/src/TEval.cpp
@@ -168,6 +168,7 @@ double TEval::eval(double t) const
         return 0;
 
     double ret = 0;
+    std::string error; // no exception may leave the critical section
 #pragma omp critical
     {
         if (t == cacheTime2) {
@@ -181,24 +182,28 @@ double TEval::eval(double t) const
 
             lua_getglobal(L, "_evaluator");
             err = lua_pcall(L, 0, 1, 0);
+            int isnum = 0;
             if (err) {
-                std::string e = lua_tostring(L, -1);
-                lua_pop(L, 1);
-                throw std::invalid_argument(e);
+                const char* e = lua_tostring(L, -1);
+                error = e ? e : "unknown error";
+            } else {
+                ret = lua_tonumberx(L, -1, &isnum);
+                if (!isnum)
+                    error = "invalid return type";
             }
-            int isnum;
-            ret = lua_tonumberx(L, -1, &isnum);
             lua_pop(L, 1);
-            if (!isnum) {
-                throw std::invalid_argument("invalid return type");
-            }
 
-            cacheTime2 = cacheTime1;
-            cacheValue2 = cacheValue1;
-            cacheTime1 = t;
-            cacheValue1 = ret;
+            if (isnum) {
+                cacheTime2 = cacheTime1;
+                cacheValue2 = cacheValue1;
+                cacheTime1 = t;
+                cacheValue1 = ret;
+            }
         }
     }
 
+    if (!error.empty())
+        throw std::invalid_argument(error);
+
     return ret;
 }
-- 
2.43.0


From 45e78a724be563643a0be5889751a12ace524118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 18/39] fix: gen_parallelogram requires its angle

---
 utils/vvflow/gen_parallelogram.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/vvflow/gen_parallelogram.cpp b/utils/vvflow/gen_parallelogram.cpp
index 2a46d43..aae428c 100644
--- a/utils/vvflow/gen_parallelogram.cpp
+++ b/utils/vvflow/gen_parallelogram.cpp
@@ -27,8 +27,7 @@ int luavvd_gen_parallelogram(lua_State *L) {
     H_ = get_param(L, "H",  "positive", std::numeric_limits<lua_Number>::min());
     d_ = get_param(L, "d", "in range (0, 180)",
         /*min*/ std::numeric_limits<lua_Number>::min(),
-        /*max*/ 180*(1 - std::numeric_limits<lua_Number>::epsilon()),
-        /*default*/ 0);
+        /*max*/ 180*(1 - std::numeric_limits<lua_Number>::epsilon()));
 
     lua_pushnil(L);
     if (lua_next(L, 1)) {
-- 
2.43.0


From 0f0b9f70ce8e04d2e7e68536fdef5536e065aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 19/39] fix: native errors become script errors, failed
 assignments change nothing

---
 utils/vvflow/getset.h        | 18 ++++++++++++++++++
 utils/vvflow/lua_objlist.cpp | 15 +++++++++++----
 utils/vvflow/lua_space.cpp   | 22 ++++++++++++----------
 utils/vvflow/lua_tbody.cpp   |  7 ++++++-
 utils/vvflow/lua_teval.cpp   |  6 ++++--
 utils/vvflow/vvflow.cpp      | 28 +++++++++++++++++++---------
 6 files changed, 70 insertions(+), 26 deletions(-)

diff --git a/utils/vvflow/getset.h b/utils/vvflow/getset.h
index 914aa30..86b24d1 100644
--- a/utils/vvflow/getset.h
+++ b/utils/vvflow/getset.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <exception>
 #include <lua.hpp>
 
 /* class.member = *ptr = value
@@ -31,6 +32,23 @@ int luavvd_getTVec(lua_State *L);   // lua_newuserdata(TVec*, "TVec")
 int luavvd_getTVec3D(lua_State *L); // lua_newuserdata(TVec3D*, "TVec3D")
 int luavvd_getTEval(lua_State *L);  // lua_newuserdata(TEval*, "TEval")
 
+/* calls fn, turning exceptions into lua errors */
+template<typename F>
+int luavvd_guard(lua_State *L, F fn) {
+    try {
+        return fn();
+    } catch (const std::exception& e) {
+        luaL_where(L, 1);
+        lua_pushstring(L, e.what());
+    } catch (...) {
+        luaL_where(L, 1);
+        lua_pushliteral(L, "unknown exception");
+    }
+
+    lua_concat(L, 2);
+    return lua_error(L);
+}
+
 int luavvd_getObjList(lua_State *L); // lua_newuserdata(std::vector<TObj>*, "ObjList")
 int luavvd_getBodyList(lua_State *L); // lua_newuserdata(std::vector<shared_ptr<TBody>>*, "BodyList")
 
diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index dab6d4f..54a2dd1 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -12,12 +12,16 @@ static int objlist_append(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
     int isobj;
 
+    // nothing is appended unless everything is valid
     for (int i=2; i<=lua_gettop(L); i++) {
-        TObj obj = lua_toTObjx(L, i, &isobj);
+        lua_toTObjx(L, i, &isobj);
         if (!isobj) {
-            luaL_argerror(L, i, "expected TObj");
+            return luaL_argerror(L, i, "expected TObj");
         }
-        li->push_back(obj);
+    }
+
+    for (int i=2; i<=lua_gettop(L); i++) {
+        li->push_back(lua_toTObjx(L, i, &isobj));
     }
 
     return 0;
@@ -42,7 +46,10 @@ static int objlist_load_txt(lua_State *L) {
 static int objlist_load_bin(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
     const char* fname = luaL_checkstring(L, 2);
-    Space::load_list_bin(*li, fname);
+    int err = Space::load_list_bin(*li, fname);
+    if (err) {
+        return luaL_error(L, "can not load '%s' (%s)", fname, strerror(err));
+    }
     return 0;
 }
 
diff --git a/utils/vvflow/lua_space.cpp b/utils/vvflow/lua_space.cpp
index adea519..56c349d 100644
--- a/utils/vvflow/lua_space.cpp
+++ b/utils/vvflow/lua_space.cpp
@@ -9,20 +9,20 @@ static int space_load(lua_State *L) {
     Space **ptr = (Space**)luaL_checkudata(L, 1, "S");
     Space *S = *ptr;
     const char* fname = luaL_checkstring(L, 2);
-    S->load(fname);
-    return 0;
+    return luavvd_guard(L, [S, fname]() {
+        S->load(fname);
+        return 0;
+    });
 }
 
 static int space_save(lua_State *L) {
     Space **ptr = (Space**)luaL_checkudata(L, 1, "S");
     Space *S = *ptr;
     const char* fname = luaL_checkstring(L, 2);
-    try {
+    return luavvd_guard(L, [S, fname]() {
         S->save(fname);
-    } catch (const std::invalid_argument &e) {
-        return luaL_error(L, e.what());
-    }
-    return 0;
+        return 0;
+    });
 }
 
 static int space_xstreamfunction(lua_State *L) {
@@ -38,9 +38,11 @@ static int space_xstreamfunction(lua_State *L) {
         luaL_error(L, "bad argument #1 for TSpace.XStreamfunction (%s)", lua_tostring(L, -1));
     }
 
-    double ret = XStreamfunction::streamfunction(*S, vec);
-    lua_pushnumber(L, ret);
-    return 1;
+    return luavvd_guard(L, [L, S, vec]() {
+        double ret = XStreamfunction::streamfunction(*S, vec);
+        lua_pushnumber(L, ret);
+        return 1;
+    });
 }
 
 static const struct luavvd_member space_members[] = {
diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 21e610e..8dc0a5e 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -26,7 +26,12 @@ int luavvd_setslip(lua_State *L) {
 int luavvd_getslip(lua_State *L) {
     TBody* body = (TBody*)lua_touserdata(L, 1);
 
-    uint32_t slip = body->alist.begin()->slip;
+    if (body->alist.empty()) {
+        lua_pushnil(L);
+        return 1;
+    }
+
+    uint32_t slip = body->alist.front().slip;
     for (auto& latt: body->alist) {
         if (latt.slip != slip) {
             lua_pushnil(L);
diff --git a/utils/vvflow/lua_teval.cpp b/utils/vvflow/lua_teval.cpp
index 8e3f2b8..b409cef 100644
--- a/utils/vvflow/lua_teval.cpp
+++ b/utils/vvflow/lua_teval.cpp
@@ -9,8 +9,10 @@ static int teval_eval(lua_State *L) {
     TEval* script = checkTEval(L, 1);
     lua_Number val = luaL_checknumber(L, 2);
 
-    lua_pushnumber(L, script->eval(val));
-    return 1;
+    return luavvd_guard(L, [L, script, val]() {
+        lua_pushnumber(L, script->eval(val));
+        return 1;
+    });
 }
 
 static int teval_tostring(lua_State *L) {
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index fe81317..1687858 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -150,7 +150,7 @@ int main(int argc, char* const* argv)
     }
     lua_setglobal(L, "arg");
 
-    if (H5Fis_hdf5(opt::input)) {
+    if (H5Fis_hdf5(opt::input) > 0) {
         lua_getglobal(L, "S");
         Space **ptr = (Space**)lua_touserdata(L, -1);
         lua_pop(L, 1);
@@ -159,7 +159,12 @@ int main(int argc, char* const* argv)
             throw std::runtime_error("Internal error 0x180");
         }
         Space &S = **ptr;
-        S.load(opt::input);
+        try {
+            S.load(opt::input);
+        } catch (const std::exception& e) {
+            fprintf(stderr, "%s\n", e.what());
+            return 8;
+        }
         ret = luaL_dostring(L, "simulate()");
     } else {
         ret = luaL_dofile(L, opt::input);
@@ -174,20 +179,27 @@ int main(int argc, char* const* argv)
     return 0;
 }
 
+static void run(Space& S);
+
 int simulate (lua_State *L) {
     lua_getglobal(L, "S");
     Space **ptr = (Space**)lua_touserdata(L, -1);
     lua_pop(L, 1);
 
     if (!ptr) {
-        throw std::runtime_error("Internal error 0x180");
+        return luaL_error(L, "Internal error 0x180");
     }
-    Space &S = **ptr;
 
+    return luavvd_guard(L, [ptr]() {
+        run(**ptr);
+        return 0;
+    });
+}
+
+static void run(Space& S) {
     // error checking
-    #define RAISE(STR) { cerr << "vvflow ERROR: " << STR << endl; return -1; }
-    if (S.re <= 0) RAISE("invalid value re<=0");
-    #undef RAISE
+    if (!(S.re > 0))
+        throw std::invalid_argument("invalid value re<=0");
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
 
     const std::string f_stepdata = "stepdata_" + S.caption + ".h5";
@@ -273,6 +285,4 @@ int simulate (lua_State *L) {
 
     if (opt::show_progress)
         fprintf(stderr, "\n");
-
-    return 0;
 }
-- 
2.43.0


From f63bf56f8c81932123d869511bae0fa118dc59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 20/39] fix: sensor files that can not be read or written are
 reported

---
 utils/vvflow/sensors.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/utils/vvflow/sensors.cpp b/utils/vvflow/sensors.cpp
index 20c3b48..ff32fdd 100644
--- a/utils/vvflow/sensors.cpp
+++ b/utils/vvflow/sensors.cpp
@@ -1,6 +1,8 @@
 #include "MConvectiveFast.hpp"
 
 // #include <cstdio>
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 using std::vector;
@@ -30,7 +32,9 @@ sensors::sensors(Space* S, MConvectiveFast *conv, const char* sensors_file, cons
 	slist()
 {
 	loadFile(sensors_file);
-	if (slist.size()) fout = fopen(output, "a");
+	if (!slist.size()) return;
+	fout = fopen(output, "a");
+	if (!fout) throw std::runtime_error(std::string("can not open ") + output);
 }
 
 sensors::~sensors()
@@ -44,7 +48,7 @@ void sensors::loadFile(const char* file)
 	if (!file) return;
 
 	FILE *fin = fopen(file, "r");
-	if (!fin) { std::cerr << "No file called \'" << file << "\'" << std::endl; return; }
+	if (!fin) throw std::runtime_error(std::string("can not open ") + file);
 
 	TVec vec(0, 0);
 	while ( fscanf(fin, "%lf %lf", &vec.x, &vec.y)==2 )
@@ -52,7 +56,9 @@ void sensors::loadFile(const char* file)
 		slist.push_back(vec);
 	}
 
+	bool complete = feof(fin);
 	fclose(fin);
+	if (!complete) throw std::runtime_error(std::string("malformed sensors file ") + file);
 }
 
 void sensors::output()
@@ -66,5 +72,5 @@ void sensors::output()
 		fprintf(fout, " \t%lg \t%lg", tmp.x, tmp.y);
 	}
 	fprintf(fout, "\n");
-	fflush(fout);
+	if (fflush(fout)) throw std::runtime_error("can not write sensors output");
 }
-- 
2.43.0


From bb9d76445d25751a98e50909164e7b1ab92b95fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 21/39] fix: fields are computed on a copy of the space that
 shares no body

---
 libvvhd/headers/TSpace.hpp |  2 ++
 libvvhd/src/TSpace.cpp     | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/libvvhd/headers/TSpace.hpp b/libvvhd/headers/TSpace.hpp
index cf70e69..c7fd553 100644
--- a/libvvhd/headers/TSpace.hpp
+++ b/libvvhd/headers/TSpace.hpp
@@ -20,6 +20,8 @@ class Space
 {
     public:
         Space();
+        Space(const Space& copy); // the bodies are copied too
+        Space& operator= (const Space& copy) = delete;
         std::string caption;
         double re; // re = 1/nyu, where nyu is the kinematic viscosity of fluid
         double pr;
diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index aeb5b12..cb07c9a 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -36,6 +36,40 @@ Space::Space():
     StreakList()
 {}
 
+Space::Space(const Space& copy):
+    caption(copy.caption),
+    re(copy.re),
+    pr(copy.pr),
+    inf_g(copy.inf_g),
+    inf_vx(copy.inf_vx),
+    inf_vy(copy.inf_vy),
+    inf_marker(copy.inf_marker),
+    gravity(copy.gravity),
+    time(copy.time),
+    dt(copy.dt),
+    dt_save(copy.dt_save),
+    dt_streak(copy.dt_streak),
+    dt_profile(copy.dt_profile),
+    finish(copy.finish),
+    BodyList(),
+    VortexList(copy.VortexList),
+    HeatList(copy.HeatList),
+    SourceList(copy.SourceList),
+    StreakSourceList(copy.StreakSourceList),
+    StreakList(copy.StreakList)
+{
+    for (auto& lbody: copy.BodyList)
+        BodyList.push_back(std::make_shared<TBody>(*lbody));
+
+    for (auto& lbody: BodyList)
+    {
+        auto root = lbody->root_body.lock();
+        int root_no = copy.get_body_index(root.get());
+        if (root && root_no >= 0)
+            lbody->root_body = BodyList[root_no];
+    }
+}
+
 void Space::load(const char* fname, metainfo_t *info)
 {
     BodyList.clear();
-- 
2.43.0


From 851bdeb77ae768e703d3291e12b77fe36e79395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 22/39] fix: fields and plots relative to a body require one

---
 libvvhd/src/XPressure.cpp       | 2 ++
 libvvhd/src/XStreamfunction.cpp | 2 ++
 libvvhd/src/XVelocity.cpp       | 2 ++
 utils/vvplot/vvplot.cpp         | 7 ++++++-
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/XPressure.cpp b/libvvhd/src/XPressure.cpp
index b05a24f..aee075e 100644
--- a/libvvhd/src/XPressure.cpp
+++ b/libvvhd/src/XPressure.cpp
@@ -44,6 +44,8 @@ void XPressure::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XPressure(): no body to refer to");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index 1e906f7..f96d766 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -57,6 +57,8 @@ void XStreamfunction::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XStreamfunction(): no body to refer to");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
diff --git a/libvvhd/src/XVelocity.cpp b/libvvhd/src/XVelocity.cpp
index 3672c62..144344a 100644
--- a/libvvhd/src/XVelocity.cpp
+++ b/libvvhd/src/XVelocity.cpp
@@ -31,6 +31,8 @@ void XVelocity::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XVelocity(): no body to refer to");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index bc53b46..0bafc68 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -98,6 +98,11 @@ int main_hdf(int argc, char **argv)
     }
     gp << "\n" << std::endl;
 
+    if (S.BodyList.empty() && strchr("bxy", opt::ref_xy)) {
+        fprintf(stderr, "%s: no body to refer to in '%s'\n", argv[0], opt::input);
+        return 2;
+    }
+
     if (opt::ref_xy == 'o') {
         // do nothing
     } else if (opt::ref_xy == 'f') {
@@ -399,7 +404,7 @@ int main_hdf(int argc, char **argv)
             float f[2] = {float(p.x), float(p.y)};
             bin.write(reinterpret_cast<const char*>(f), sizeof(f));
         }
-        { /* close the curve */
+        if (!b.alist.empty()) { /* close the curve */
             TVec p = b.alist.front().corner;
             float f[2] = {float(p.x), float(p.y)};
             bin.write(reinterpret_cast<const char*>(f), sizeof(f));
-- 
2.43.0


From 60704798e6c1d837b863523ce653095b8b88603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 23/39] fix: holder velocity along y refers to the holder as
 along x does

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index ad28768..cbdcbd7 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -838,7 +838,7 @@ void MConvectiveFast::fillSpeedYEquation(unsigned eq_no, TBody* ibody, bool righ
     {
         *matrix.getCell(eq_no, &root_body->speed_slae.r.x) = 0;
         *matrix.getCell(eq_no, &root_body->speed_slae.r.y) = -1;
-        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = -(ibody->get_axis() - root_body->get_axis()).x;
+        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = -(ibody->holder.r - root_body->get_axis()).x;
     }
 }
 
-- 
2.43.0


From 9e7ca99d64f149ddde74a98899330b7a96529f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 24/39] fix: an expression raising a non-string error is an
 invalid expression

---
 libvvhd/src/TEval.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TEval.cpp b/libvvhd/src/TEval.cpp
index a0d4fd2..e5dc91a 100644
--- a/libvvhd/src/TEval.cpp
+++ b/libvvhd/src/TEval.cpp
@@ -115,6 +115,13 @@ TEval& TEval::operator=(const TEval& copy)
     return *this = std::string(copy);
 }
 
+static std::string error_message(lua_State* _L)
+{
+    // the error object is not necessarily a string
+    const char* e = lua_tostring(_L, -1);
+    return e ? e : "unknown error";
+}
+
 int loadstring(lua_State* _L, const std::string& str)
 {
     return luaL_loadbuffer(_L, str.c_str(), str.size(), "@TEval");
@@ -136,7 +143,7 @@ TEval& TEval::operator=(const std::string& str)
         err = loadstring(L, str);
     }
     if (err) {
-        std::string e = lua_tostring(L, -1);
+        std::string e = error_message(L);
         lua_pop(L, 1);
         throw std::invalid_argument(e);
     }
@@ -146,7 +153,7 @@ TEval& TEval::operator=(const std::string& str)
     lua_setglobal(L, "t");
     err = lua_pcall(L, 0, 1, 0);
     if (err) {
-        std::string e = lua_tostring(L, -1);
+        std::string e = error_message(L);
         lua_pop(L, 2);
         throw std::invalid_argument(e);
     } else if (!lua_isnumber(L, -1)) {
-- 
2.43.0


From 9b43070cc15aa7478dc3596cd7373a6c5f598e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 25/39] fix: simulate accepts only a space in the global S

---
 utils/vvflow/vvflow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 1687858..43af1bc 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -183,7 +183,7 @@ static void run(Space& S);
 
 int simulate (lua_State *L) {
     lua_getglobal(L, "S");
-    Space **ptr = (Space**)lua_touserdata(L, -1);
+    Space **ptr = (Space**)luaL_testudata(L, -1, "S");
     lua_pop(L, 1);
 
     if (!ptr) {
-- 
2.43.0


From 6d33a3700fd21fc7d1aaeefd9f46cbb66e38867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 26/39] fix: errors raised inside parallel regions are rethrown
 after them

---
 libvvhd/headers/omp_errors.hpp  | 25 +++++++++++++++++++++++++
 libvvhd/src/MConvectiveFast.cpp | 15 +++++++++++----
 libvvhd/src/XPressure.cpp       |  7 ++++++-
 libvvhd/src/XStreamfunction.cpp |  7 ++++++-
 libvvhd/src/XVelocity.cpp       |  7 ++++++-
 libvvhd/src/XVorticity.cpp      |  7 ++++++-
 6 files changed, 60 insertions(+), 8 deletions(-)
 create mode 100644 libvvhd/headers/omp_errors.hpp

diff --git a/libvvhd/headers/omp_errors.hpp b/libvvhd/headers/omp_errors.hpp
new file mode 100644
index 0000000..228e594
--- /dev/null
+++ b/libvvhd/headers/omp_errors.hpp
@@ -0,0 +1,25 @@
+#pragma once
+
+#include <exception>
+
+/* An exception must not leave a parallel region:
+   it is captured inside and rethrown after the region. */
+class omp_errors
+{
+    public:
+        omp_errors(): first() {}
+
+        void capture() {
+            #pragma omp critical(omp_errors)
+            {
+                if (!first) first = std::current_exception();
+            }
+        }
+
+        void rethrow() const {
+            if (first) std::rethrow_exception(first);
+        }
+
+    private:
+        std::exception_ptr first;
+};
diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index cbdcbd7..12d36e6 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -1,5 +1,6 @@
 #include "MConvectiveFast.hpp"
 #include "elementary.h"
+#include "omp_errors.hpp"
 
 #include <complex>
 #include <sys/stat.h>
@@ -70,6 +71,8 @@ void MConvectiveFast::process_all_lists()
 
         TVec nodeCenter = TVec(lbnode->x, lbnode->y);
 
+        const TVec inf_speed = S->inf_speed(); // may throw
+
         #pragma omp parallel
         {
             #pragma omp for schedule(dynamic, 256)
@@ -77,7 +80,7 @@ void MConvectiveFast::process_all_lists()
             {
                 if (!lobj->g) {continue;}
                 TVec dr_local = lobj->r - nodeCenter;
-                lobj->v += S->inf_speed();
+                lobj->v += inf_speed;
                 lobj->v += near_nodes_influence(*lbnode, lobj->r);
                 lobj->v += sink_list_influence(lobj->r);
                 lobj->v += body_list_influence(lobj->r);
@@ -90,7 +93,7 @@ void MConvectiveFast::process_all_lists()
             {
                 if (!lobj->g) {continue;}
                 TVec dr_local = lobj->r - nodeCenter;
-                lobj->v += S->inf_speed();
+                lobj->v += inf_speed;
                 lobj->v += near_nodes_influence(*lbnode, lobj->r);
                 lobj->v += sink_list_influence(lobj->r);
                 lobj->v += body_list_influence(lobj->r);
@@ -102,7 +105,7 @@ void MConvectiveFast::process_all_lists()
             for (TObj *lobj = lbnode->sRange.first; lobj < lbnode->sRange.last; lobj++)
             {
                 TVec dr_local = lobj->r - nodeCenter;
-                lobj->v += S->inf_speed();
+                lobj->v += inf_speed;
                 lobj->v += near_nodes_influence(*lbnode, lobj->r);
                 lobj->v += sink_list_influence(lobj->r);
                 lobj->v += body_list_influence(lobj->r);
@@ -979,9 +982,10 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
     }
 #undef addJob
 
+    omp_errors errors;
     #pragma omp parallel for
     for (auto job = jobs.begin(); job < jobs.end(); job++)
-    {
+    try {
         if (0) {}
 #define CASE(TYPE) \
         else if (job->eq_type == (fptr)&MConvectiveFast::fill##TYPE)
@@ -1002,7 +1006,10 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
 #undef CASE
 #undef FILL_EQ_FOR_SEG
 #undef FILL_EQ_FOR_BODY
+    } catch (...) {
+        errors.capture();
     }
+    errors.rethrow();
 
     if (!rightColOnly)
         matrix.markBodyMatrixAsFilled();
diff --git a/libvvhd/src/XPressure.cpp b/libvvhd/src/XPressure.cpp
index aee075e..79b0710 100644
--- a/libvvhd/src/XPressure.cpp
+++ b/libvvhd/src/XPressure.cpp
@@ -1,5 +1,6 @@
 #include "XPressure.hpp"
 #include "elementary.h"
+#include "omp_errors.hpp"
 
 #include <cmath>
 #include <limits>
@@ -69,6 +70,7 @@ void XPressure::evaluate()
 
     // const vector<TSortedNode*>& bnodes = tree.getBottomNodes();
 
+    omp_errors errors;
     #pragma omp parallel
     {
         // #pragma omp for
@@ -88,15 +90,18 @@ void XPressure::evaluate()
         for (int yj=0; yj<yres; yj++)
         {
             for (int xi=0; xi<xres; xi++)
-            {
+            try {
                 TVec p = TVec(xmin, ymin) + dxdy*TVec(xi, yj);
                 map[yj*xres+xi] = S.point_is_in_body(p) ? 0 : pressure(p);
                 // map[xi*dims[1]+yj] = S->point_is_in_body(TVec(x, y)) ?
                 //        0 : Pressure(S, &conv, TVec(x, y), RefFrame, NaN);
 
+            } catch (...) {
+                errors.capture();
             }
         }
     }
+    errors.rethrow();
 
     evaluated = true;
 }
diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index f96d766..6fe3119 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -3,6 +3,7 @@
 #include "MFlowmove.hpp"
 #include "MEpsilonFast.hpp"
 #include "elementary.h"
+#include "omp_errors.hpp"
 
 #include <cmath>
 #include <limits>
@@ -81,6 +82,7 @@ void XStreamfunction::evaluate()
 
     const vector<TSortedNode*>& bnodes = tree.getBottomNodes();
 
+    omp_errors errors;
     #pragma omp parallel
     {
         #pragma omp for
@@ -99,7 +101,7 @@ void XStreamfunction::evaluate()
         for (int yj=0; yj<yres; yj++)
         {
             for (int xi=0; xi<xres; xi++)
-            {
+            try {
                 TVec p = TVec(xmin, ymin) + dxdy*TVec(xi, yj);
                 // double x = xmin + double(xi)*spacing;
                 // double y = ymin + double(yj)*spacing;
@@ -112,9 +114,12 @@ void XStreamfunction::evaluate()
                     #pragma omp critical
                     gaps.emplace_back(xi, yj, psi_gap);
                 }
+            } catch (...) {
+                errors.capture();
             }
         }
     }
+    errors.rethrow();
 
     evaluated = true;
 }
diff --git a/libvvhd/src/XVelocity.cpp b/libvvhd/src/XVelocity.cpp
index 144344a..b571eb3 100644
--- a/libvvhd/src/XVelocity.cpp
+++ b/libvvhd/src/XVelocity.cpp
@@ -1,4 +1,5 @@
 #include "XVelocity.hpp"
+#include "omp_errors.hpp"
 
 #include <cmath>
 #include <limits>
@@ -52,13 +53,14 @@ void XVelocity::evaluate()
     tree.build();
     eps.CalcEpsilonFast(false);
 
+    omp_errors errors;
     #pragma omp parallel
     {
         #pragma omp for collapse(2) schedule(dynamic, 256)
         for (int yj=0; yj<yres; yj++)
         {
             for (int xi=0; xi<xres; xi++)
-            {
+            try {
                 TVec p = TVec(xmin, ymin) + dxdy*TVec(xi, yj);
                 TVec u = convective.velocity(p) - ref_frame_speed;
 
@@ -67,9 +69,12 @@ void XVelocity::evaluate()
                 } else if (mode == 'y') {
                     map[yj*xres+xi] = u.y;
                 }
+            } catch (...) {
+                errors.capture();
             }
         }
     }
+    errors.rethrow();
 
     evaluated = true;
 }
diff --git a/libvvhd/src/XVorticity.cpp b/libvvhd/src/XVorticity.cpp
index aa86e7b..0265744 100644
--- a/libvvhd/src/XVorticity.cpp
+++ b/libvvhd/src/XVorticity.cpp
@@ -3,6 +3,7 @@
 #include "MFlowmove.hpp"
 #include "MEpsilonFast.hpp"
 #include "elementary.h"
+#include "omp_errors.hpp"
 
 #include <cmath>
 #include <limits>
@@ -42,6 +43,7 @@ void XVorticity::evaluate()
 
     const vector<TSortedNode*>& bnodes = tree.getBottomNodes();
 
+    omp_errors errors;
     #pragma omp parallel
     {
         #pragma omp for
@@ -61,13 +63,16 @@ void XVorticity::evaluate()
         for (int yj=0; yj<yres; yj++)
         {
             for (int xi=0; xi<xres; xi++)
-            {
+            try {
                 TVec p = TVec(xmin, ymin) + dxdy*TVec(xi, yj);
                 const TSortedNode* bnode = tree.findNode(p);
                 map[yj*xres+xi] = S.point_is_in_body(p) ? 0 : vorticity(*bnode, p);
+            } catch (...) {
+                errors.capture();
             }
         }
     }
+    errors.rethrow();
 
     evaluated = true;
 }
-- 
2.43.0


From dde891e66fc968cf4d61b1aade39eca92436619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 27/39] fix: the stream function's gaps come in grid order, not
 in thread order

---
 libvvhd/src/XStreamfunction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index 6fe3119..68bbba4 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -5,6 +5,7 @@
 #include "elementary.h"
 #include "omp_errors.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 
@@ -121,6 +122,11 @@ void XStreamfunction::evaluate()
     }
     errors.rethrow();
 
+    // threads find the gaps in an arbitrary order
+    std::sort(gaps.begin(), gaps.end(), [](const TGap& a, const TGap& b) {
+        return a.yj != b.yj ? a.yj < b.yj : a.xi < b.xi;
+    });
+
     evaluated = true;
 }
 
-- 
2.43.0


From a7a2fd58e28d9c38d18875075e7e6c14ae8415a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 28/39] fix: the trees of fields and of an interrupted run are
 never freed

---
 libvvhd/headers/TSortedTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/headers/TSortedTree.hpp b/libvvhd/headers/TSortedTree.hpp
index a54c6c1..0670f9d 100644
--- a/libvvhd/headers/TSortedTree.hpp
+++ b/libvvhd/headers/TSortedTree.hpp
@@ -69,7 +69,7 @@ class stree
         stree() = delete;
         stree(const stree&) = delete;
         stree& operator=(const stree&) = delete;
-        //~tree();
+        ~stree() { destroy(); }
 
         void build(bool IncludeVortexes = true, bool IncludeBody = true, bool IncludeHeat = true);
         void destroy();
-- 
2.43.0


From fe568cb85e1361e7a92b52b159f471c46760e82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 29/39] fix: an expression that fails with an empty message is
 an error again

---
 libvvhd/src/TEval.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TEval.cpp b/libvvhd/src/TEval.cpp
index e5dc91a..1db2c97 100644
--- a/libvvhd/src/TEval.cpp
+++ b/libvvhd/src/TEval.cpp
@@ -175,6 +175,7 @@ double TEval::eval(double t) const
         return 0;
 
     double ret = 0;
+    bool failed = false;
     std::string error; // no exception may leave the critical section
 #pragma omp critical
     {
@@ -191,12 +192,15 @@ double TEval::eval(double t) const
             err = lua_pcall(L, 0, 1, 0);
             int isnum = 0;
             if (err) {
+                failed = true;
                 const char* e = lua_tostring(L, -1);
                 error = e ? e : "unknown error";
             } else {
                 ret = lua_tonumberx(L, -1, &isnum);
-                if (!isnum)
+                if (!isnum) {
+                    failed = true;
                     error = "invalid return type";
+                }
             }
             lua_pop(L, 1);
 
@@ -209,7 +213,7 @@ double TEval::eval(double t) const
         }
     }
 
-    if (!error.empty())
+    if (failed)
         throw std::invalid_argument(error);
 
     return ret;
-- 
2.43.0


From 7208014bc26ea9fa4435bdd583364829ad8910fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:07 +0000
Subject: [PATCH 30/39] fix: the corners that body:totable() returns are
 copies, not references into the contour

---
 utils/vvflow/lua_tbody.cpp | 2 +-
 utils/vvflow/lua_tvec.cpp  | 8 ++++++++
 utils/vvflow/lua_tvec.h    | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 8dc0a5e..e416142 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -144,7 +144,7 @@ static int tbody_totable(lua_State *L) {
     shared_ptr<TBody> body = checkTBody(L, 1);
     lua_newtable(L);
     for (int i=0; i<body->alist.size(); i++) {
-        lua_pushTVec(L, &body->alist[i].corner);
+        lua_pushTVecCopy(L, body->alist[i].corner);
         lua_rawseti(L, -2, i+1);
     }
     return 1;
diff --git a/utils/vvflow/lua_tvec.cpp b/utils/vvflow/lua_tvec.cpp
index 3528cc9..d3d61c5 100644
--- a/utils/vvflow/lua_tvec.cpp
+++ b/utils/vvflow/lua_tvec.cpp
@@ -3,6 +3,7 @@
 
 // #include <stdio.h>
 #include <cstring>
+#include <new>
 
 static int tvec_abs(lua_State *L) {
     TVec* vec = lua_checkTVec(L, 1);
@@ -112,6 +113,13 @@ void  lua_pushTVec(lua_State *L, TVec* vec) {
     lua_setmetatable(L, -2);
 }
 
+void  lua_pushTVecCopy(lua_State *L, const TVec& vec) {
+    TVec** udat = (TVec**)lua_newuserdata(L, sizeof(TVec*) + sizeof(TVec));
+    *udat = new(udat+1) TVec(vec);
+    luaL_getmetatable(L, "TVec");
+    lua_setmetatable(L, -2);
+}
+
 TVec* lua_checkTVec(lua_State *L, int idx) {
     TVec** udat = (TVec**)luaL_checkudata(L, idx, "TVec");
     return *udat;
diff --git a/utils/vvflow/lua_tvec.h b/utils/vvflow/lua_tvec.h
index f38923c..623374e 100644
--- a/utils/vvflow/lua_tvec.h
+++ b/utils/vvflow/lua_tvec.h
@@ -7,6 +7,8 @@ int luaopen_tvec (lua_State *L);
 
 /* push userdata with (TVec*) and set metatable "TVec" */
 void  lua_pushTVec(lua_State *L, TVec* vec);
+/* the same, but userdata has its own copy of the value */
+void  lua_pushTVecCopy(lua_State *L, const TVec& vec);
 /* get userdata (TVec*) and check metatable is "TVec" */
 TVec* lua_checkTVec(lua_State *L, int idx);
 /* get value at index and convert it to TVec */
-- 
2.43.0


From 7aac4c2440d09e26f3658884e052077b78a6e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:17 +0000
Subject: [PATCH 31/39] fix: setting the slip of a body from a script updates
 whether the body slips

---
 utils/vvflow/lua_tbody.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index e416142..3f7641d 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -20,6 +20,7 @@ int luavvd_setslip(lua_State *L) {
     for (auto& latt: body->alist) {
         latt.slip = val;
     }
+    body->doFillProperties();
     return 0;
 }
 
-- 
2.43.0


From c58d492c53a24293521fb9a1d4f80555be6007b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 32/39] fix: reject time fractions with a zero denominator in
 snapshots

They made the first TTime::add of a run divide by zero.
---
 libvvhd/headers/TTime.hpp       |  9 +++++++++
 libvvhd/src/TSpace_load_hdf.cpp | 10 +++++-----
 libvvhd/src/TSpace_load_v13.cpp | 10 +++++-----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/libvvhd/headers/TTime.hpp b/libvvhd/headers/TTime.hpp
index 8c32b10..d0c4dfa 100644
--- a/libvvhd/headers/TTime.hpp
+++ b/libvvhd/headers/TTime.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cstdint>
+#include <stdexcept>
 #include <string>
 
 class TTime
@@ -50,6 +51,14 @@ class TTime
             return !((int64_t(value)*lcm_ts/timescale) % (int64_t(divisor.value)*lcm_ts/divisor.timescale));
         }
 
+        // a fraction that comes from outside: throws if it has no denominator
+        TTime checked() const
+        {
+            if (!timescale)
+                throw std::runtime_error("a time fraction has a zero denominator");
+            return *this;
+        }
+
     public:
         operator double() const {return double(value)/double(timescale);}
         operator std::string() const
diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 1b7c72e..4df82a5 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -206,11 +206,11 @@ void Space::load_hdf(int64_t fid, metainfo_t *info)
     h5t_scope types;
 
     caption = h5a_read<std::string> (fid, "caption");
-    time = h5a_read<TTime> (fid, "time");
-    dt = h5a_read<TTime> (fid, "dt");
-    dt_save = h5a_read<TTime> (fid, "dt_save");
-    dt_streak = h5a_read<TTime> (fid, "dt_streak");
-    dt_profile = h5a_read<TTime> (fid, "dt_profile");
+    time = h5a_read<TTime> (fid, "time").checked();
+    dt = h5a_read<TTime> (fid, "dt").checked();
+    dt_save = h5a_read<TTime> (fid, "dt_save").checked();
+    dt_streak = h5a_read<TTime> (fid, "dt_streak").checked();
+    dt_profile = h5a_read<TTime> (fid, "dt_profile").checked();
     re = h5a_read<double> (fid, "re");
     pr = h5a_read<double> (fid, "pr");
     inf_marker = h5a_read<TVec> (fid, "inf_marker");
diff --git a/libvvhd/src/TSpace_load_v13.cpp b/libvvhd/src/TSpace_load_v13.cpp
index 8a58c92..a59bfd3 100644
--- a/libvvhd/src/TSpace_load_v13.cpp
+++ b/libvvhd/src/TSpace_load_v13.cpp
@@ -102,11 +102,11 @@ void Space::load_v13(const char* fname)
             char name[65] = {};
             fin.read(name, 64);
             caption = name;
-            fin.read(&time, 8);
-            fin.read(&dt, 8);
-            fin.read(&dt_save, 8);
-            fin.read(&dt_streak, 8);
-            fin.read(&dt_profile, 8);
+            time = fin.get<TTime>().checked();
+            dt = fin.get<TTime>().checked();
+            dt_save = fin.get<TTime>().checked();
+            dt_streak = fin.get<TTime>().checked();
+            dt_profile = fin.get<TTime>().checked();
             fin.read(&re, 8);
             fin.read(&pr, 8);
             fin.read(&inf_marker, 16);
-- 
2.43.0


From 9d08e65da6c3dad2071f76e9d7610f504aabd473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:50 +0000
Subject: [PATCH 33/39] fix: reject fractions whose parts do not fit in 32 bits

A timescale of 2^32 passed the test for being positive and was then stored as zero.
---
 utils/vvflow/getset.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index cd428aa..d3f2eb2 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -88,6 +88,9 @@ int luavvd_setTTime(lua_State *L) {
         } else if (lua_tointeger(L, -1)<1) {
             lua_pushfstring(L, "TTime timescale must be positive, got %d", nt.timescale);
             return 1;
+        } else if (lua_tointeger(L, -2) != nt.value || lua_tointeger(L, -1) != nt.timescale) {
+            lua_pushfstring(L, "TTime needs 32-bit integers");
+            return 1;
         }
         *t = nt;
         return 0;
-- 
2.43.0


From af613c996b6f324fdf89b82b14c2a5015cdb3d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:53 +0000
Subject: [PATCH 34/39] fix: XField: take the spacing from the whole extent of
 the stored grid

The coordinates are stored in single precision. The difference of the first
two is mostly rounding when the field lies far from the origin.
---
 libvvhd/src/XField.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index cbfb3aa..dac3b6f 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -50,8 +50,8 @@ XField::XField(const std::string& str):
     if (yres <= 1 || str.size() != sizeof(float)*(xres+1)*(yres+1))
         throw std::invalid_argument("XField(str): can't factorize matrix");
 
-    float dx = data[2] - data[1];
-    float dy = data[2*(xres+1)] - data[1*(xres+1)];
+    float dx = (data[xres] - data[1])/(xres-1);
+    float dy = (data[yres*(xres+1)] - data[1*(xres+1)])/(yres-1);
     if (fabs(dx-dy) > std::min(fabs(dx), fabs(dy))/1000 ) {
         fprintf(stderr, "Bad spacing: %lg != %lg (diff %lg)\n",
             dx, dy, fabs(dx-dy)
@@ -61,7 +61,7 @@ XField::XField(const std::string& str):
 
     xmin = data[1];
     ymin = data[1*(xres+1)];
-    dxdy = data[2]-data[1];
+    dxdy = dx;
     map = new float[size_t(xres)*yres];
     for (int yj=0; yj<yres; yj++)
     {
-- 
2.43.0


From 048db08c34e9b29c8b89ada1fdeea68ce504f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:21 +0000
Subject: [PATCH 35/39] fix: leave the heat particles in place while segments
 refer to them by number

Building the tree sorts the lists it includes. The numbers noted by
move_and_clean are used by heat_shed after the first tree of the next step.
---
 utils/vvflow/vvflow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 43af1bc..179c378 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -235,7 +235,7 @@ static void run(Space& S) {
     {
         if (S.BodyList.size())
         {
-            dbg(tr.build());
+            dbg(tr.build(true, true, false));
 
             // решаем слау
             if (collision != nullptr) {
-- 
2.43.0


From 87e690af6232632a508a400f323eba20b1fa8816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:50 +0000
Subject: [PATCH 36/39] fix: a collision stays pending until the equation it
 belongs to is filled

An elastic degree of freedom filled before the colliding one cleared the
pending collision, so that neither the stop nor the bounce took place for
bodies that are elastic in more than one direction.
---
 libvvhd/src/MConvectiveFast.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 12d36e6..e723b3b 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -932,8 +932,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.x;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -949,8 +949,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.y;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -967,8 +967,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.o;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
-- 
2.43.0


From a3b280010fdde3b0d84baae64c77a038d45afd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:20 +0000
Subject: [PATCH 37/39] fix: a matrix that could not be written completely is
 reported

---
 libvvhd/src/TMatrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TMatrix.cpp b/libvvhd/src/TMatrix.cpp
index f7dfd9c..8c7e0f3 100644
--- a/libvvhd/src/TMatrix.cpp
+++ b/libvvhd/src/TMatrix.cpp
@@ -286,7 +286,8 @@ void Matrix::save(const char* filename)
         }
         fprintf(fout, "\t%lf\n", RightCol[i]);
     }
-    fclose(fout);
+    bool failed = ferror(fout);
+    if (fclose(fout) || failed) perror("Error saving the matrix");
 }
 
 void Matrix::fillWithZeros()
-- 
2.43.0


From b432d994643415088c51490592400c79033b8c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:20 +0000
Subject: [PATCH 38/39] fix: a part of a sensors row lost before the flush is
 reported

---
 utils/vvflow/sensors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvflow/sensors.cpp b/utils/vvflow/sensors.cpp
index ff32fdd..67c5237 100644
--- a/utils/vvflow/sensors.cpp
+++ b/utils/vvflow/sensors.cpp
@@ -72,5 +72,5 @@ void sensors::output()
 		fprintf(fout, " \t%lg \t%lg", tmp.x, tmp.y);
 	}
 	fprintf(fout, "\n");
-	if (fflush(fout)) throw std::runtime_error("can not write sensors output");
+	if (fflush(fout) || ferror(fout)) throw std::runtime_error("can not write sensors output");
 }
-- 
2.43.0


From 8ffd9d7d8ac805e3f81f22ce73eb061a710dab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:20 +0000
Subject: [PATCH 39/39] fix: vvxtract reports output that could not be written

---
 utils/vvxtract/vvxtract.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index be47e56..742cb0c 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -41,6 +41,16 @@ namespace opt {
     char* const* argv;
 }
 
+// Exit status of the program, 0 if everything printed has been written.
+static int finish(const char* name)
+{
+    if (fflush(stdout) || ferror(stdout)) {
+        fprintf(stderr, "%s: error writing output\n", name);
+        return 6;
+    }
+    return 0;
+}
+
 int main(int argc, char **argv)
 {
     opt::parse(argc, argv);
@@ -73,7 +83,7 @@ int main(int argc, char **argv)
             fprintf(stderr, "%s: can't list file '%s'\n", argv[0], opt::input);
             return 2;
         }
-        return 0;
+        return finish(argv[0]);
     }
 
     if (opt::b_info) {
@@ -162,7 +172,7 @@ int main(int argc, char **argv)
             printf("-- %s.get_moi_cofm() = %lg\n", blabel, b.get_moi_cofm());
             printf("-- %s.get_moi_axis() = %lg\n", blabel, b.get_moi_axis());
         }
-        return 0;
+        return finish(argv[0]);
     }
 
     std::vector<dataset_t> datasets;
@@ -246,5 +256,5 @@ int main(int argc, char **argv)
         printf("\n");
     }
 
-    return 0;
+    return finish(argv[0]);
 }
-- 
2.43.0

