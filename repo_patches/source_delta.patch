From cda0de3de5c2fe103f2a4a7a3147c959e497e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 01/51] fix: do not leave an interrupted download under the
 final archive name

---
 tools/download_sumo_datasets.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index b168617..a706c6d 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -74,6 +74,10 @@ def read_config(args):
 
 def download_one(args, zip_filename):
     """Downloads one zip file in a single process."""
+    # The transfer goes to a temporary name, so that a file with the final name is
+    # always a finished download, even if the process is killed.
+    zip_file_path = os.path.join(args.destination_dir, zip_filename)
+    part_file_path = zip_file_path + ".part"
     try:
         logging.info("Downloading {}.".format(zip_filename))
         server_url = "{}/training/{}".format(args.server_name, zip_filename)
@@ -83,7 +87,7 @@ def download_one(args, zip_filename):
                 "Cannot read zip file {} from the server".format(zip_filename)
             )
         total_length = int(response.headers.get("content-length"))
-        with open(os.path.join(args.destination_dir, zip_filename), "wb") as f:
+        with open(part_file_path, "wb") as f:
             if total_length == 0:
                 f.write(response.content)
             else:
@@ -98,16 +102,17 @@ def download_one(args, zip_filename):
                     if chunk:
                         f.write(chunk)
                         f.flush()
+        os.rename(part_file_path, zip_file_path)
 
     except KeyboardInterrupt:
-        if os.path.exists(os.path.join(args.destination_dir, zip_filename)):
-            os.remove(os.path.join(args.destination_dir, zip_filename))
+        if os.path.exists(part_file_path):
+            os.remove(part_file_path)
         raise
 
     except Exception as e:
         logging.error(e)
-        if os.path.exists(os.path.join(args.destination_dir, zip_filename)):
-            os.remove(os.path.join(args.destination_dir, zip_filename))
+        if os.path.exists(part_file_path):
+            os.remove(part_file_path)
 
 
 def unzip_one(args, file):
-- 
2.43.0


From f60d88e042073a74065df6d846f1a701ed3c7915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 02/51] fix: do not accept a download that ended early as
 complete

---
 tools/download_sumo_datasets.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index a706c6d..35546dc 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -102,6 +102,17 @@ def download_one(args, zip_filename):
                     if chunk:
                         f.write(chunk)
                         f.flush()
+        # a connection that is closed early may just look like the end of the data
+        received_length = os.path.getsize(part_file_path)
+        if (
+            "content-encoding" not in response.headers
+            and received_length != total_length
+        ):
+            raise RuntimeError(
+                "Received {} of {} bytes of {}".format(
+                    received_length, total_length, zip_filename
+                )
+            )
         os.rename(part_file_path, zip_file_path)
 
     except KeyboardInterrupt:
-- 
2.43.0


From 0ec40bdee45f0fdca690fd83fa9081798c68208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 03/51] fix: handle destination folders whose name contains
 glob characters

---
 tools/download_sumo_datasets.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index 35546dc..2fb34ad 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -255,11 +255,15 @@ def get_zip_file_count(args):
     all_zip_files = args.training_input + args.training_ground_truth
     existing_zip_files = [
         os.path.basename(x)
-        for x in glob.glob(os.path.join(args.destination_dir, "*.zip"))
+        for x in glob.glob(
+            os.path.join(glob.escape(args.destination_dir), "*.zip")
+        )
     ]
     extracted_zip_files = [
         os.path.basename(x.replace(".cache", ".zip"))
-        for x in glob.glob(os.path.join(args.cache_folder, "*.cache"))
+        for x in glob.glob(
+            os.path.join(glob.escape(args.cache_folder), "*.cache")
+        )
     ]
     remaining_zip_files_to_be_downloaded = remove_existing_files(
         all_zip_files, existing_zip_files + extracted_zip_files
-- 
2.43.0


From 0a6777b10aad7aa2c398a248c0ef54852ef6628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:06 +0000
Subject: [PATCH 04/51] fix: remove damaged archives so that they are
 downloaded again

---
 tools/download_sumo_datasets.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index 2fb34ad..48d2a46 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -29,6 +29,7 @@ import logging
 import os
 import shutil
 import zipfile
+import zlib
 from functools import partial
 from multiprocessing import Pool
 
@@ -128,8 +129,8 @@ def download_one(args, zip_filename):
 
 def unzip_one(args, file):
     """Unzips one file in a single process."""
+    zip_file_path = os.path.join(args.destination_dir, file)
     try:
-        zip_file_path = os.path.join(args.destination_dir, file)
         logging.info("Extracting {}.".format(zip_file_path))
         with zipfile.ZipFile(zip_file_path, "r") as zip:
             zip.extractall(path=args.destination_dir)
@@ -145,6 +146,21 @@ def unzip_one(args, file):
     except KeyboardInterrupt:
         raise
 
+    except (
+        zipfile.BadZipFile,
+        zlib.error,
+        EOFError,
+        NotImplementedError,
+        RuntimeError,
+    ) as e:
+        logging.error(e)
+        # The archive is damaged and will never extract: remove it, so that the next
+        # run downloads it again.  (zipfile reports some I/O errors in the same way;
+        # the archive may be fine then.)
+        if not isinstance(e.__context__, OSError):
+            logging.error("Removing damaged archive {}.".format(zip_file_path))
+            os.remove(zip_file_path)
+
     except Exception as e:
         logging.error(e)
 
-- 
2.43.0


From b7b736a85734bb7a3d27d793fce5d1eb8cc80dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:06 +0000
Subject: [PATCH 05/51] fix: leave zip files alone that are not part of the
 dataset

---
 tools/download_sumo_datasets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index 48d2a46..e8f3f00 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -274,6 +274,7 @@ def get_zip_file_count(args):
         for x in glob.glob(
             os.path.join(glob.escape(args.destination_dir), "*.zip")
         )
+        if os.path.basename(x) in all_zip_files
     ]
     extracted_zip_files = [
         os.path.basename(x.replace(".cache", ".zip"))
-- 
2.43.0


From a8f527cafcc25f38f1b51df6e59f16e9b837bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 06/51] fix: scenes returned by transform_pose can be saved and
 keep their settings

---
 sumo-api/sumo/semantic/project_scene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index c78616e..6403754 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -57,8 +57,11 @@ class ProjectScene(object):
         Output: new_project_scene - new ProjectScene instance with
             transformed pose.
         """
-        new_elements = {k: PO.transform_pose(nTo) for (k, PO) in self.elements.items()}
-        return ProjectScene(project_type=self.project_type, elements=new_elements)
+        new_elements = ProjectObjectDict()
+        for (k, PO) in self.elements.items():
+            new_elements[k] = PO.transform_pose(nTo)
+        return ProjectScene(project_type=self.project_type, elements=new_elements,
+            settings=dict(self.settings))
 
     def save(self, path, project_name):
         """
-- 
2.43.0


From 4f214a7cfab8fb44700b446ad878e39dd4d74d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 07/51] fix: raise the documented ValueError for damaged scene
 files

---
 sumo-api/sumo/semantic/project_object.py | 2 ++
 sumo-api/sumo/semantic/project_scene.py  | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_object.py b/sumo-api/sumo/semantic/project_object.py
index 45f7743..853be33 100644
--- a/sumo-api/sumo/semantic/project_object.py
+++ b/sumo-api/sumo/semantic/project_object.py
@@ -339,7 +339,9 @@ class ProjectObject(object):
             raise ValueError('Expected tag to be "element"')
 
         # defaults
+        id = None
         proxy = ProjectObject(1)
+        bounds = proxy.bounds
         category = proxy.category
         pose = proxy.pose
         symmetry = proxy.symmetry
diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index 6403754..d48889c 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -131,11 +131,15 @@ class ProjectScene(object):
         """
         settings = {}
         project_type = None
+        elements = None
 
         project_dir = os.path.join(path, project_name)
 
         # Read xml from file
-        xml_tree = ET.parse(os.path.join(project_dir, project_name + ".xml"))
+        try:
+            xml_tree = ET.parse(os.path.join(project_dir, project_name + ".xml"))
+        except ET.ParseError as e:
+            raise ValueError("Cannot parse project xml: {}".format(e))
 
         # parse xml tree
         root = xml_tree.getroot()
@@ -168,4 +172,7 @@ class ProjectScene(object):
                     project_type=project_type, base_elem=element, path=project_dir)
             # header and any other tags are silently ignored
 
+        if elements is None:
+            raise ValueError("xml is missing elements tag")
+
         return cls(project_type, elements, settings)
-- 
2.43.0


From 98143b72a9c9739e9b2f2de9e807a17c39772924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 08/51] fix: ObjectSymmetry reports invalid xml and can be
 compared with !=

---
 sumo-api/sumo/semantic/object_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/semantic/object_symmetry.py b/sumo-api/sumo/semantic/object_symmetry.py
index 814dff4..6ed6bb5 100644
--- a/sumo-api/sumo/semantic/object_symmetry.py
+++ b/sumo-api/sumo/semantic/object_symmetry.py
@@ -93,7 +93,7 @@ class ObjectSymmetry(object):
         )
 
     def __ne__(self, other):
-        return self != other
+        return not (self == other)
 
     @property
     def x_symmetry(self):
@@ -190,7 +190,7 @@ class ObjectSymmetry(object):
             return objectSymmetry
 
         except ValueError:
-            RuntimeError("Could not parse symmetry element.")
+            raise RuntimeError("Could not parse symmetry element.")
 
     def to_xml(self):
         """
-- 
2.43.0


From aef726387ccb9ab0ffc0969499cf4ae617738b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 09/51] fix: VoxelGrid.save and load report failures as IOError
 and close the file

---
 sumo-api/sumo/threedee/voxel_grid.py | 35 +++++++++++++++-------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 9d580c3..80d9304 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -173,15 +173,15 @@ class VoxelGrid(object):
         IOError - if file cannot be written.
         """
         try:  # note: h5py does not document excption hanlding.  TODO: Verify this
-            f = h5py.File(filename, "w")
+            with h5py.File(filename, "w") as f:
+                f.create_dataset("voxels_3d", shape=self._voxels_3d.shape, data=self._voxels_3d, dtype='int32')
+                f.attrs["scale"] = self._scale
+                f.attrs["min_corner"] = self._min_corner
+                f.attrs["size_x"] = self._size_x
+                f.attrs["size_y"] = self._size_y
+                f.flush()  # close() does not report all errors
         except Exception as e:
-            IOError("voxel file write failed. Err: " + str(e))
-        f.create_dataset("voxels_3d", shape=self._voxels_3d.shape, data=self._voxels_3d, dtype='int32')
-        f.attrs["scale"] = self._scale
-        f.attrs["min_corner"] = self._min_corner
-        f.attrs["size_x"] = self._size_x
-        f.attrs["size_y"] = self._size_y
-        f.close()
+            raise IOError("voxel file write failed. Err: " + str(e))
 
     def load(self, filename):
         """
@@ -194,15 +194,18 @@ class VoxelGrid(object):
         IOError - if file cannot be read.
         """
         try:
-            f = h5py.File(filename, "r")
+            with h5py.File(filename, "r") as f:
+                voxels_3d = np.array(f["voxels_3d"], np.int32)
+                scale = f.attrs["scale"]
+                min_corner = np.array(f.attrs["min_corner"])
+                size_x = f.attrs["size_x"]
+                size_y = f.attrs["size_y"]
         except Exception as e:
-            IOError("voxel file read failed. Err: " + str(e))
-        self._voxels_3d = np.array(f["voxels_3d"], np.int32)
-        self._scale = f.attrs["scale"]
-        self._min_corner = np.array(f.attrs["min_corner"])
-        self._size_x = f.attrs["size_x"]
-        self._size_y = f.attrs["size_y"]
-        f.close()
+            raise IOError("voxel file read failed. Err: " + str(e))
+        self._voxels_3d = voxels_3d
+        self._scale = scale
+        self._min_corner = min_corner
+        self._size_x, self._size_y = size_x, size_y
 
 
 #------------- End of public interface ------------------------
-- 
2.43.0


From 85950aed5292ca97ed99ad5987b379f0349a34f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 10/51] fix: adding points to a VoxelGrid never shrinks it in x
 or y

---
 sumo-api/sumo/threedee/voxel_grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 80d9304..12cde50 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -126,8 +126,9 @@ class VoxelGrid(object):
 
         # Check if voxel space dimensions have increased
         (new_size_x, new_size_y, _) = np.amax(new_voxels_3d, 0) + 1
-        if (new_size_x > self._size_x) or (new_size_y > self._size_y):
-            self._size_x, self._size_y = new_size_x, new_size_y
+        # (plain ints: the product of two numpy int32 sizes may overflow)
+        self._size_x = max(int(self._size_x), int(new_size_x))
+        self._size_y = max(int(self._size_y), int(new_size_y))
 
         # convert the voxel_index to 1D and merge
         old_voxels_1d = _linearize_voxels(self._voxels_3d, self._size_x, self._size_y)
-- 
2.43.0


From 4f4f7c74396cc0251842eaa0cd50c3ce23011dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 11/51] fix: scenes no longer share one default settings
 dictionary

---
 sumo-api/sumo/semantic/project_scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index d48889c..df77c34 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -45,7 +45,7 @@ class ProjectScene(object):
             raise ValueError("Project type ({}) must be one of 'bounding_box', \
 'voxels', or 'mesh'".format(project_type))
         self.project_type = project_type
-        self.settings = settings if settings is not None else DEFAULT_SETTINGS
+        self.settings = settings if settings is not None else dict(DEFAULT_SETTINGS)
         self.elements = elements if elements is not None else ProjectObjectDict()
 
     def transform_pose(self, nTo):
-- 
2.43.0


From 7f38b339c11dd014638234561aba419487852617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:11 +0000
Subject: [PATCH 12/51] fix: save_as_glb does not change the working directory
 of the process

Relative target paths ended up in the temporary folder that is removed at
the end, other threads saw a different working directory, and a failure to
remove the folder left the process there. A wrong extension no longer leaves
a temporary folder behind.
---
 sumo-api/sumo/threedee/gltf_model.pyx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sumo-api/sumo/threedee/gltf_model.pyx b/sumo-api/sumo/threedee/gltf_model.pyx
index 4f5e2fe..1e35be8 100644
--- a/sumo-api/sumo/threedee/gltf_model.pyx
+++ b/sumo-api/sumo/threedee/gltf_model.pyx
@@ -256,16 +256,13 @@ cdef class GltfModel:
               RunTimeError - if saveImages fails when writing gltf files
         """
         base_name = os.path.basename(path)
-        temp = tempfile.mkdtemp()
-        temp_folder = temp.decode('UTF-8') if hasattr(temp, 'decode') else temp
         root, extension = os.path.splitext(base_name)
         assert extension == ".glb"
+        temp = tempfile.mkdtemp()
+        temp_folder = temp.decode('UTF-8') if hasattr(temp, 'decode') else temp
         # Write object to files
-        current_dir = os.getcwd()
-        os.chdir(temp_folder)
         try:
             gltf_path = self.save_as_gltf(temp_folder, root)
             gltf2glb(gltf_path, path)
         finally:
             shutil.rmtree(temp_folder)
-            os.chdir(current_dir)
-- 
2.43.0


From 9fb4a5deb83e095e2511c2b0c935a0ce9b6e7cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:11 +0000
Subject: [PATCH 13/51] fix: report glTF and image files that could not be
 written

WriteGltfSceneToFile and saveImages ignored every error while writing, so a
full disk gave a truncated model and no exception.
---
 sumo-api/sumo/threedee/GltfModel.cpp         | 13 +++++++++-
 sumo-api/sumo/threedee/gltf.pyx              |  2 +-
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 27 ++++++++++++++------
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index dd4fdc6..5683a1c 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -513,13 +513,24 @@ void GltfModel::saveImages(const string& folder) const {
     if (image.uri.empty()) {
       throw invalid_argument("GltfModel::saveImages: found empty image URI");
     }
+    vector<unsigned char> encoded;
     try {
-      cv::imwrite(folder + "/" + image.uri, bgr);
+      size_t dot = image.uri.rfind('.');
+      cv::imencode(
+          dot == string::npos ? string() : image.uri.substr(dot), bgr, encoded);
     } catch (cv::Exception& e) {
       throw runtime_error(
           "GltfModel::saveImages: OpenCV could not write " + image.uri +
           ", reason: " + e.what());
     }
+    string error;
+    if (encoded.empty() ||
+        !tinygltf::WriteWholeFile(
+            &error, folder + "/" + image.uri, encoded, nullptr)) {
+      throw runtime_error(
+          "GltfModel::saveImages: could not write " + image.uri +
+          ", reason: " + error);
+    }
   }
 }
 
diff --git a/sumo-api/sumo/threedee/gltf.pyx b/sumo-api/sumo/threedee/gltf.pyx
index b13faee..ff857a0 100644
--- a/sumo-api/sumo/threedee/gltf.pyx
+++ b/sumo-api/sumo/threedee/gltf.pyx
@@ -82,4 +82,4 @@ cdef class TinyGLTF:
       py_byte_string = path.encode('UTF-8')
       cdef bool ret = self.c_ptr.WriteGltfSceneToFile(c_model, py_byte_string)
       if not ret:
-          raise RuntimeError("Failed to write glTF")
+          raise IOError("Failed to write glTF")
diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 9094ef6..b8fd7fe 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -1682,6 +1682,12 @@ bool WriteWholeFile(
   }
 
   f.close();
+  if (!f) {
+    if (err) {
+      (*err) += "File write error: " + filepath + "\n";
+    }
+    return false;
+  }
   return true;
 }
 
@@ -4004,13 +4010,14 @@ static void SerializeGltfBufferData(
   SerializeStringProperty("uri", header + encodedData, o);
 }
 
-static void SerializeGltfBufferData(
+static bool SerializeGltfBufferData(
     const std::vector<unsigned char>& data,
     const std::string& binFilename) {
   std::ofstream output(binFilename.c_str(), std::ofstream::binary);
   output.write(
       reinterpret_cast<const char*>(&data[0]), std::streamsize(data.size()));
   output.close();
+  return output.good();
 }
 
 static void SerializeParameterMap(ParameterMap& param, json& o) {
@@ -4176,12 +4183,12 @@ static void SerializeGltfBuffer(Buffer& buffer, json& o) {
   }
 }
 
-static void SerializeGltfBuffer(
+static bool SerializeGltfBuffer(
     Buffer& buffer,
     json& o,
     const std::string& binFilename,
     const std::string& binBaseFilename) {
-  SerializeGltfBufferData(buffer.data, binFilename);
+  bool written = SerializeGltfBufferData(buffer.data, binFilename);
   SerializeNumberProperty("byteLength", buffer.data.size(), o);
   SerializeStringProperty("uri", binBaseFilename, o);
 
@@ -4191,6 +4198,7 @@ static void SerializeGltfBuffer(
   if (buffer.extras.Type() != NULL_TYPE) {
     SerializeValue("extras", buffer.extras, o);
   }
+  return written;
 }
 
 static void SerializeGltfBufferView(BufferView& bufferView, json& o) {
@@ -4454,11 +4462,13 @@ static void SerializeGltfTexture(Texture& texture, json& o) {
   SerializeExtensionMap(texture.extensions, o);
 }
 
-static void WriteGltfFile(
+static bool WriteGltfFile(
     const std::string& output,
     const std::string& content) {
   std::ofstream gltfFile(output.c_str());
   gltfFile << content << std::endl;
+  gltfFile.close();
+  return gltfFile.good();
 }
 
 bool TinyGLTF::WriteGltfSceneToFile(
@@ -4519,8 +4529,10 @@ bool TinyGLTF::WriteGltfSceneToFile(
     if (embedBuffers) {
       SerializeGltfBuffer(model->buffers[i], buffer);
     } else {
-      SerializeGltfBuffer(
-          model->buffers[i], buffer, binSaveFilePath, binFilename);
+      if (!SerializeGltfBuffer(
+              model->buffers[i], buffer, binSaveFilePath, binFilename)) {
+        return false;
+      }
     }
     buffers.push_back(buffer);
   }
@@ -4688,8 +4700,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
     SerializeValue("extras", model->extras, output);
   }
 
-  WriteGltfFile(filename, output.dump());
-  return true;
+  return WriteGltfFile(filename, output.dump());
 }
 
 } // namespace tinygltf
-- 
2.43.0


From 3ebb6f5fae14cedf81a45fd1995a939526387bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:11 +0000
Subject: [PATCH 14/51] fix: reject damaged glTF files instead of reading out
 of bounds

A truncated glb, a short read, or an accessor, bufferView or texture index
outside the data led to reads past the end of the buffer, to partial models
or to an uncaught C++ exception that ended the process.
---
 sumo-api/sumo/threedee/GltfModel.cpp         | 21 ++++++++-------
 sumo-api/sumo/threedee/GltfModel.h           | 15 ++++++++---
 sumo-api/sumo/threedee/gltf.pxd              |  6 ++---
 sumo-api/sumo/threedee/gltf.pyx              |  4 +--
 sumo-api/sumo/threedee/gltf_model.pxd        |  8 +++---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 27 ++++++++++++++++++--
 6 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 5683a1c..76626f6 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -250,7 +250,8 @@ cv::Mat3b GltfModel::extractTexture(int textureId) const {
   const tinygltf::Texture& texture = this->textures[textureId];
 
   // Get image
-  if (texture.source >= static_cast<int>(this->images.size())) {
+  if (texture.source < 0 ||
+      texture.source >= static_cast<int>(this->images.size())) {
     throw runtime_error("GltfModel::extractTexture: invalid texture found.");
   }
   const tinygltf::Image& image = this->images[texture.source];
@@ -610,14 +611,16 @@ size_t GltfModel::loadTexture(
     throw runtime_error("loadTexture: Empty file: " + filename);
   }
   tinygltf::Image image;
-  tinygltf::LoadImageData(
-      &image,
-      nullptr,
-      0,
-      0,
-      &bytes.at(0),
-      static_cast<int>(bytes.size()),
-      nullptr);
+  if (!tinygltf::LoadImageData(
+          &image,
+          nullptr,
+          0,
+          0,
+          &bytes.at(0),
+          static_cast<int>(bytes.size()),
+          nullptr)) {
+    throw runtime_error("loadTexture: not an image: " + filename);
+  }
 
   size_t start = uri.find_last_of("/") + 1;
   size_t end = uri.find_last_of(".");
diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index 9756763..0a25d70 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -251,17 +251,26 @@ class GltfAccessor {
  private:
   // Calculate pointer_, assumes tinyAccessor_ is initialized correctly
   void calculatePointer(const GltfModel& object) {
-    if (tinyAccessor_.bufferView >=
-        static_cast<int>(object.bufferViews.size())) {
+    if (tinyAccessor_.bufferView < 0 ||
+        tinyAccessor_.bufferView >=
+            static_cast<int>(object.bufferViews.size())) {
       throw std::invalid_argument("GltfAccessor: invalid bufferView index");
     }
     const tinygltf::BufferView& view =
         object.bufferViews[tinyAccessor_.bufferView];
 
-    if (view.buffer >= static_cast<int>(object.buffers.size())) {
+    if (view.buffer < 0 ||
+        view.buffer >= static_cast<int>(object.buffers.size())) {
       throw std::invalid_argument("GltfAccessor: invalid buffer index");
     }
     const tinygltf::Buffer& buffer = object.buffers[view.buffer];
+    const size_t available = buffer.data.size();
+    if (view.byteOffset > available ||
+        tinyAccessor_.byteOffset > available - view.byteOffset ||
+        tinyAccessor_.count > (available - view.byteOffset -
+                               tinyAccessor_.byteOffset) / sizeof(T)) {
+      throw std::invalid_argument("GltfAccessor: elements exceed buffer");
+    }
     pointer_ = reinterpret_cast<const T*>(
         buffer.data.data() + view.byteOffset + tinyAccessor_.byteOffset);
   }
diff --git a/sumo-api/sumo/threedee/gltf.pxd b/sumo-api/sumo/threedee/gltf.pxd
index 259fa33..5f860db 100644
--- a/sumo-api/sumo/threedee/gltf.pxd
+++ b/sumo-api/sumo/threedee/gltf.pxd
@@ -43,13 +43,13 @@ cdef extern from "sumo/threedee/tiny_gltf/tiny_gltf.h" namespace "tinygltf":
   cdef cppclass CTinyGLTF "tinygltf::TinyGLTF":
     CTinyGLTF() except +
     bool LoadASCIIFromFile(CGltfModel* model, string* err,
-                           const string& filename)
-    bool WriteGltfSceneToFile(CGltfModel* model, const string& filename)
+                           const string& filename) except +IOError
+    bool WriteGltfSceneToFile(CGltfModel* model, const string& filename) except +IOError
 
     bool LoadBinaryFromFile(
       CGltfModel* model,
       string* err,
-      const string& filename)
+      const string& filename) except +IOError
 
 
 # Python wrapper classes:
diff --git a/sumo-api/sumo/threedee/gltf.pyx b/sumo-api/sumo/threedee/gltf.pyx
index ff857a0..ae265f5 100644
--- a/sumo-api/sumo/threedee/gltf.pyx
+++ b/sumo-api/sumo/threedee/gltf.pyx
@@ -70,10 +70,10 @@ cdef class TinyGLTF:
       cdef CGltfModel* c_model = model.c_ptr
       py_byte_string = path.encode('UTF-8')
       cdef bool ret = self.c_ptr.LoadBinaryFromFile(c_model, &err, py_byte_string)
-      # set the URI for the images
-      c_model.setURIs(b".png")
       if not ret:
           raise IOError("Failed to parse glb file {}.  Error = {}".format(path, err))
+      # set the URI for the images
+      c_model.setURIs(b".png")
       return model
 
   def write_gltf_scene_to_file(self, GltfModel model, unicode path):
diff --git a/sumo-api/sumo/threedee/gltf_model.pxd b/sumo-api/sumo/threedee/gltf_model.pxd
index a228110..b73a101 100644
--- a/sumo-api/sumo/threedee/gltf_model.pxd
+++ b/sumo-api/sumo/threedee/gltf_model.pxd
@@ -29,11 +29,11 @@ cdef extern from "sumo/threedee/GltfModel.h" namespace "sumo":
     vector[CImage] images
     vector[CMesh*] getPolymorphicPrimitiveMeshes() except +
     CGltfModel() except +
-    void addTexturedPrimitiveMesh(const CTexturedMesh& mesh)
-    void addPrimitiveMesh(const CMesh& mesh)
+    void addTexturedPrimitiveMesh(const CTexturedMesh& mesh) except +
+    void addPrimitiveMesh(const CMesh& mesh) except +
     void updateMaterial(size_t meshIndex, CVector3& color, string& uri,
-                        string& baseDir)
-    size_t addColoredMaterial(string& name, CVector3& color, double metallic, double roughness)
+                        string& baseDir) except +
+    size_t addColoredMaterial(string& name, CVector3& color, double metallic, double roughness) except +
     void setURIs(const string& extension) except +
     void saveImages(const string& folder) except +
 
diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index b8fd7fe..c0679f3 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -1653,6 +1653,12 @@ bool ReadWholeFile(
   out->resize(sz);
   f.read(
       reinterpret_cast<char*>(&out->at(0)), static_cast<std::streamsize>(sz));
+  if (!f || f.gcount() != static_cast<std::streamsize>(sz)) {
+    if (err) {
+      (*err) += "File read error: " + filepath + "\n";
+    }
+    return false;
+  }
   f.close();
 
   return true;
@@ -3520,7 +3526,21 @@ bool TinyGLTF::LoadFromString(
 
           const BufferView& bufferView =
               model->bufferViews[size_t(image.bufferView)];
+          if (size_t(bufferView.buffer) >= model->buffers.size()) {
+            if (err) {
+              (*err) += "image bufferView refers to a missing buffer.\n";
+            }
+            return false;
+          }
           const Buffer& buffer = model->buffers[size_t(bufferView.buffer)];
+          if (bufferView.byteOffset >= buffer.data.size() ||
+              bufferView.byteLength >
+                  buffer.data.size() - bufferView.byteOffset) {
+            if (err) {
+              (*err) += "image bufferView exceeds its buffer.\n";
+            }
+            return false;
+          }
 
           if (*LoadImageData == nullptr) {
             if (err) {
@@ -3823,7 +3843,8 @@ bool TinyGLTF::LoadBinaryFromMemory(
   // In case the Bin buffer is not present, the size is exactly 20 + size of
   // JSON contents,
   // so use "greater than" operator.
-  if ((20 + model_length > size) || (model_length < 1) ||
+  if ((length > size) || (model_length > length) ||
+      (20 > length - model_length) || (model_length < 1) ||
       (model_format != 0x4E4F534A)) { // 0x4E4F534A = JSON format.
     if (err) {
       (*err) = "Invalid glTF binary.";
@@ -3838,7 +3859,9 @@ bool TinyGLTF::LoadBinaryFromMemory(
   is_binary_ = true;
   bin_data_ = bytes + 20 + model_length +
       8; // 4 bytes (buffer_length) + 4 bytes(buffer_format)
-  bin_size_ = length - (20 + model_length); // extract header + JSON scene data.
+  // extract header + JSON scene data + header of the binary chunk.
+  bin_size_ = length - (20 + model_length);
+  bin_size_ = bin_size_ > 8 ? bin_size_ - 8 : 0;
 
   bool ret = LoadFromString(
       model,
-- 
2.43.0


From 39ad74d334c884bb7c9f7b78f6d2cb0d301f2311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:11 +0000
Subject: [PATCH 15/51] fix: gltf2glb keeps the offset of a buffer for views
 without byteOffset

---
 sumo-api/sumo/threedee/glb_converter.pyx | 459 +++++++++++------------
 1 file changed, 228 insertions(+), 231 deletions(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 48cf4a5..401fbb5 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -1,231 +1,228 @@
-"""
-Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
-
-This source code is licensed under the MIT license found in the
-LICENSE file in the root directory of this source tree.
-
-GlTF to GLB converter.
-"""
-
-from __future__ import absolute_import
-from __future__ import division
-from __future__ import print_function
-from __future__ import unicode_literals
-
-import json
-import mimetypes
-import os
-import struct
-import sys
-
-
-class BodyEncoder:
-    """
-    Encode the binary chunks of the GLB's body
-    Use body_length and body_parts for tracking aligned binary data
-    """
-    def __init__(self, containing_dir):
-        """
-        Constructor
-
-        Input:
-        containing_dir (string) - Path for gltf file
-        """
-        self.containing_dir = containing_dir
-        self.body_length = 0
-        self.body_parts = []
-
-    def add_to_body(self, uri, length):
-        """
-        Adds an immediate or external data uri to the GLB's body
-
-        Inputs:
-        uri (string) - String of characters used to identify a resource
-        length (int) - Placeholder to store buffer length
-
-        Outputs:
-        offset (int) - Overall offset to current uri
-        length (int) - Length for current aligned uri buffer
-        """
-        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
-            buf = bytearray(f.read())
-
-        # 4-byte-aligned
-        length = (len(buf) + 3) & ~3
-        for _i in range(length - len(buf)):
-            buf.extend(b' ')
-
-        # Handle the buffer
-        offset = self.body_length
-        self.body_parts.append(offset)
-        self.body_parts.append(buf)
-        length = len(buf)
-        self.body_length += length
-        return (offset, length)
-
-
-class GlbEncoder:
-    """
-    Combine JSON header and binary body into a GLB with a proper header
-    """
-    def __init__(self, header, body):
-        """
-        Constructor
-
-        Inputs:
-        header - Packed gltf json in binary data
-        body (BodyEncoder) - Packed gltf resource in binary data
-        """
-        self.header = header
-        self.body = body
-
-    def export(self, filename):
-        """
-        Export the GLB file
-
-        Inputs:
-        filename (string) - Path for exported file path
-        """
-        with open(filename, 'wb') as f:
-            f.write(self.export_string())
-            f.close()
-
-    def export_string(self):
-        """ Export the GLB data"""
-
-        # Padded scene length to a multiple of 4 for 4-byte-aligned
-        l_aligned_len = (len(self.header) + 3) & ~3
-
-        for _i in range(l_aligned_len - len(self.header)):
-            self.header.extend(b' ')
-
-        glb_out = bytearray()
-        # 12 (file header): magic + version + length
-        # 8 (json chunk header): json length + type
-        # len(self.header): aligned json header length
-        # 8 (bin chunk header): chunk length + type
-        # self.body.body_length: aligned binary length
-        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
-
-        # Write the header
-        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
-        glb_out.extend(struct.pack('<I', 2))
-        glb_out.extend(struct.pack('<I', file_len))
-        glb_out.extend(struct.pack('<I', len(self.header)))
-
-        # Write binary json
-        glb_out.extend(struct.pack('<I', 0x4E4F534A))
-        glb_out += self.header
-        glb_out.extend(struct.pack('<I', self.body.body_length))
-        glb_out.extend(struct.pack('<I', 0x004E4942))
-
-        # Write the body
-        for i in range(0, len(self.body.body_parts), 2):
-            contents = self.body.body_parts[i + 1]
-            glb_out += contents
-
-        return glb_out
-
-
-def gltf2glb(input_glTF, output_glb=None):
-    """
-    Convert glTF2 files into a single glb file
-
-    Inputs:
-    input_glTF (string) - Path for input gltf file path
-    output_glb (string) - Path for output glb file path
-    """
-    # Check if input file is with gltf extension
-    if not input_glTF.endswith('.gltf'):
-        print("Failed to create binary GLTF file: input is not *.gltf")
-        sys.exit(-1)
-
-    # Save default glb file name and location using input gltf file name
-    ext = 'glb'
-    fname_out \
-        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
-
-    if output_glb is not None:
-        fname_out = output_glb
-    else:
-        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
-
-    with open(input_glTF, 'rb') as f:
-        gltf = f.read()
-
-    gltf = gltf.decode('utf-8')
-    gltf_json = json.loads(gltf)
-
-    # Set up body_encoder
-    body_encoder \
-        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
-
-    buffer_map = {}
-    buffer_offset = 0
-    buffer_length = 0
-    buffer_index = 0
-
-    for i, _val in enumerate(gltf_json["buffers"]):
-        try:
-            length = gltf_json["buffers"][i]["byteLength"]
-        except KeyError:
-            length = None
-
-        offset, length \
-            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
-
-        del gltf_json["buffers"][i]["uri"]
-        gltf_json["buffers"][i]["byteLength"] = length
-
-        buffer_index = i
-        buffer_map[buffer_index] = buffer_offset
-        buffer_offset += length
-
-    # Iterate over the bufferViews to
-    # move buffers into the single GLB buffer body
-    for bufview in gltf_json["bufferViews"]:
-        try:
-            bufview["byteOffset"] \
-                = bufview["byteOffset"] + buffer_map[bufview["buffer"]]
-        except KeyError:
-            bufview["byteOffset"] = 0
-
-        bufview["buffer"] = 0
-
-    # Iterate over images
-    if 'images' in gltf_json:
-        for i, image in enumerate(gltf_json["images"]):
-            uri = image["uri"]
-            if not uri:
-                raise ValueError("GLTF image has empty URI.")
-            buffer_map[buffer_index] = buffer_offset
-            offset, length = body_encoder.add_to_body(uri, None)
-
-            buffer_view = {
-                "buffer": 0,
-                "byteOffset": offset,
-                "byteLength": length
-            }
-
-            # Update buffer_offset after add data into binary
-            buffer_index += 1
-            buffer_offset = offset
-            buffer_length = length
-            buffer_view_index = len(gltf_json["bufferViews"])
-            gltf_json["bufferViews"].append(buffer_view)
-            image["bufferView"] = buffer_view_index
-
-            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
-            image["mimeType"] = fileType
-            del image["uri"]
-
-    #TODO: In our model pool, they doesn't contain shader resource.
-    #if 'shaders' in gltf_json:
-
-    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
-    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
-    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-
-    # Pack both binary json and data into single glb file
-    encoder = GlbEncoder(gltf_str, body_encoder)
-    encoder.export(fname_out)
+"""
+Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
+
+This source code is licensed under the MIT license found in the
+LICENSE file in the root directory of this source tree.
+
+GlTF to GLB converter.
+"""
+
+from __future__ import absolute_import
+from __future__ import division
+from __future__ import print_function
+from __future__ import unicode_literals
+
+import json
+import mimetypes
+import os
+import struct
+import sys
+
+
+class BodyEncoder:
+    """
+    Encode the binary chunks of the GLB's body
+    Use body_length and body_parts for tracking aligned binary data
+    """
+    def __init__(self, containing_dir):
+        """
+        Constructor
+
+        Input:
+        containing_dir (string) - Path for gltf file
+        """
+        self.containing_dir = containing_dir
+        self.body_length = 0
+        self.body_parts = []
+
+    def add_to_body(self, uri, length):
+        """
+        Adds an immediate or external data uri to the GLB's body
+
+        Inputs:
+        uri (string) - String of characters used to identify a resource
+        length (int) - Placeholder to store buffer length
+
+        Outputs:
+        offset (int) - Overall offset to current uri
+        length (int) - Length for current aligned uri buffer
+        """
+        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
+            buf = bytearray(f.read())
+
+        # 4-byte-aligned
+        length = (len(buf) + 3) & ~3
+        for _i in range(length - len(buf)):
+            buf.extend(b' ')
+
+        # Handle the buffer
+        offset = self.body_length
+        self.body_parts.append(offset)
+        self.body_parts.append(buf)
+        length = len(buf)
+        self.body_length += length
+        return (offset, length)
+
+
+class GlbEncoder:
+    """
+    Combine JSON header and binary body into a GLB with a proper header
+    """
+    def __init__(self, header, body):
+        """
+        Constructor
+
+        Inputs:
+        header - Packed gltf json in binary data
+        body (BodyEncoder) - Packed gltf resource in binary data
+        """
+        self.header = header
+        self.body = body
+
+    def export(self, filename):
+        """
+        Export the GLB file
+
+        Inputs:
+        filename (string) - Path for exported file path
+        """
+        with open(filename, 'wb') as f:
+            f.write(self.export_string())
+            f.close()
+
+    def export_string(self):
+        """ Export the GLB data"""
+
+        # Padded scene length to a multiple of 4 for 4-byte-aligned
+        l_aligned_len = (len(self.header) + 3) & ~3
+
+        for _i in range(l_aligned_len - len(self.header)):
+            self.header.extend(b' ')
+
+        glb_out = bytearray()
+        # 12 (file header): magic + version + length
+        # 8 (json chunk header): json length + type
+        # len(self.header): aligned json header length
+        # 8 (bin chunk header): chunk length + type
+        # self.body.body_length: aligned binary length
+        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
+
+        # Write the header
+        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
+        glb_out.extend(struct.pack('<I', 2))
+        glb_out.extend(struct.pack('<I', file_len))
+        glb_out.extend(struct.pack('<I', len(self.header)))
+
+        # Write binary json
+        glb_out.extend(struct.pack('<I', 0x4E4F534A))
+        glb_out += self.header
+        glb_out.extend(struct.pack('<I', self.body.body_length))
+        glb_out.extend(struct.pack('<I', 0x004E4942))
+
+        # Write the body
+        for i in range(0, len(self.body.body_parts), 2):
+            contents = self.body.body_parts[i + 1]
+            glb_out += contents
+
+        return glb_out
+
+
+def gltf2glb(input_glTF, output_glb=None):
+    """
+    Convert glTF2 files into a single glb file
+
+    Inputs:
+    input_glTF (string) - Path for input gltf file path
+    output_glb (string) - Path for output glb file path
+    """
+    # Check if input file is with gltf extension
+    if not input_glTF.endswith('.gltf'):
+        print("Failed to create binary GLTF file: input is not *.gltf")
+        sys.exit(-1)
+
+    # Save default glb file name and location using input gltf file name
+    ext = 'glb'
+    fname_out \
+        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
+
+    if output_glb is not None:
+        fname_out = output_glb
+    else:
+        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
+
+    with open(input_glTF, 'rb') as f:
+        gltf = f.read()
+
+    gltf = gltf.decode('utf-8')
+    gltf_json = json.loads(gltf)
+
+    # Set up body_encoder
+    body_encoder \
+        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
+
+    buffer_map = {}
+    buffer_offset = 0
+    buffer_length = 0
+    buffer_index = 0
+
+    for i, _val in enumerate(gltf_json["buffers"]):
+        try:
+            length = gltf_json["buffers"][i]["byteLength"]
+        except KeyError:
+            length = None
+
+        offset, length \
+            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
+
+        del gltf_json["buffers"][i]["uri"]
+        gltf_json["buffers"][i]["byteLength"] = length
+
+        buffer_index = i
+        buffer_map[buffer_index] = buffer_offset
+        buffer_offset += length
+
+    # Iterate over the bufferViews to
+    # move buffers into the single GLB buffer body
+    for bufview in gltf_json["bufferViews"]:
+        bufview["byteOffset"] \
+            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
+
+        bufview["buffer"] = 0
+
+    # Iterate over images
+    if 'images' in gltf_json:
+        for i, image in enumerate(gltf_json["images"]):
+            uri = image["uri"]
+            if not uri:
+                raise ValueError("GLTF image has empty URI.")
+            buffer_map[buffer_index] = buffer_offset
+            offset, length = body_encoder.add_to_body(uri, None)
+
+            buffer_view = {
+                "buffer": 0,
+                "byteOffset": offset,
+                "byteLength": length
+            }
+
+            # Update buffer_offset after add data into binary
+            buffer_index += 1
+            buffer_offset = offset
+            buffer_length = length
+            buffer_view_index = len(gltf_json["bufferViews"])
+            gltf_json["bufferViews"].append(buffer_view)
+            image["bufferView"] = buffer_view_index
+
+            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
+            image["mimeType"] = fileType
+            del image["uri"]
+
+    #TODO: In our model pool, they doesn't contain shader resource.
+    #if 'shaders' in gltf_json:
+
+    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
+    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
+    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
+
+    # Pack both binary json and data into single glb file
+    encoder = GlbEncoder(gltf_str, body_encoder)
+    encoder.export(fname_out)
-- 
2.43.0


From b363443fed58205badc236e9306f30e57a11fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:51 +0000
Subject: [PATCH 16/51] fix: report tiff pages that could not be written or
 read completely

Errors of TIFFWriteScanline and TIFFWriteDirectory were ignored, a damaged
page directory ended the file early without an error, and images with 16 bit
colour or 8 bit labels were read or written past the end of a buffer. The
file is now also closed when an error is reported.
---
 sumo-api/sumo/images/RgbdTiff.cpp  | 34 +++++++++++++++++++++---------
 sumo-api/sumo/images/rgbd_tiff.pyx |  6 +++++-
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/sumo-api/sumo/images/RgbdTiff.cpp b/sumo-api/sumo/images/RgbdTiff.cpp
index 8ecd17d..794cacc 100644
--- a/sumo-api/sumo/images/RgbdTiff.cpp
+++ b/sumo-api/sumo/images/RgbdTiff.cpp
@@ -7,6 +7,7 @@ LICENSE file in the root directory of this source tree.
 
 #include "RgbdTiff.h"
 #include "picojson.h"
+#include <memory>
 #include <stdexcept>
 
 // These constants are used for our metadata reading/writing
@@ -134,18 +135,20 @@ bool readImage(TIFF* tiff, TiffPageMap* const pageMap) {
   uint32 width, height;
   uint16 samplesPerPixel;
   uint16 bitsPerSample;
-  TIFFGetField(tiff, TIFFTAG_SAMPLESPERPIXEL, &samplesPerPixel);
+  TIFFGetFieldDefaulted(tiff, TIFFTAG_SAMPLESPERPIXEL, &samplesPerPixel);
   if (samplesPerPixel != 3 && samplesPerPixel != 1) {
     throw runtime_error("readImage: unexpected channel count");
   }
 
-  TIFFGetField(tiff, TIFFTAG_BITSPERSAMPLE, &bitsPerSample);
-  if (bitsPerSample != 8 && bitsPerSample != 16) {
+  TIFFGetFieldDefaulted(tiff, TIFFTAG_BITSPERSAMPLE, &bitsPerSample);
+  if (bitsPerSample != 8 && (bitsPerSample != 16 || samplesPerPixel == 3)) {
     throw runtime_error("readImage: unexpected bits per sample");
   }
 
-  TIFFGetField(tiff, TIFFTAG_IMAGEWIDTH, &width);
-  TIFFGetField(tiff, TIFFTAG_IMAGELENGTH, &height);
+  if (!TIFFGetField(tiff, TIFFTAG_IMAGEWIDTH, &width) ||
+      !TIFFGetField(tiff, TIFFTAG_IMAGELENGTH, &height)) {
+    throw runtime_error("readImage: image without dimensions");
+  }
   TiffPageType pageType = readTiffPageType(tiff, samplesPerPixel);
   auto pageEntry = pageMap->find(pageType);
   if (pageEntry == pageMap->end()) {
@@ -168,6 +171,9 @@ bool readImage(TIFF* tiff, TiffPageMap* const pageMap) {
 
   // TODO: is stride always channels*width for new Mat image?
   size_t stride = samplesPerPixel * width * (bitsPerSample / 8);
+  if (static_cast<size_t>(TIFFScanlineSize(tiff)) != stride) {
+    throw runtime_error("readImage: unexpected scanline size");
+  }
   for (unsigned int y = 0; y < height; ++y) {
     status = TIFFReadScanline(tiff, (void*)(img->data + y * stride), y, 0);
     if (status == -1) {
@@ -190,11 +196,15 @@ void readRgbdTiff(
   if (!tiff) {
     throw runtime_error("readRgbdTiff: can't open TIFF file " + path);
   }
+  unique_ptr<TIFF, decltype(&TIFFClose)> closer(tiff, &TIFFClose);
   // Metadata is always written to first page
   readMetadata(tiff, meta);
   // Keep reading images until there are none left
-  while(readImage(tiff, pageMap) && TIFFReadDirectory(tiff));
-  TIFFClose(tiff);
+  while (readImage(tiff, pageMap) && !TIFFLastDirectory(tiff)) {
+    if (TIFFReadDirectory(tiff) != 1) {
+      throw runtime_error("readRgbdTiff: error reading directory in " + path);
+    }
+  }
 }
 
 // Writes a single image to the given TIFF object
@@ -223,10 +233,14 @@ void writeImage(
   // TODO: is stride always correct for every Mat image?
   size_t stride = img.channels() * img.cols * (bitsPerSample / 8);
   for (int y = 0; y < img.rows; ++y) {
-    TIFFWriteScanline(tiff, (void*)(img.data + y * stride), y, 0);
+    if (TIFFWriteScanline(tiff, (void*)(img.data + y * stride), y, 0) != 1) {
+      throw runtime_error("writeImage: error writing scanline");
+    }
   }
 
-  TIFFWriteDirectory(tiff);
+  if (TIFFWriteDirectory(tiff) != 1) {
+    throw runtime_error("writeImage: error writing directory");
+  }
 }
 
 // Write a multi-image TIFF to the path specified
@@ -247,6 +261,7 @@ void writeRgbdTiff(
   if (!tiff) {
     throw runtime_error("writeRgbdTiff: can't open TIFF file " + path);
   }
+  unique_ptr<TIFF, decltype(&TIFFClose)> closer(tiff, &TIFFClose);
 
   // For encoding metadata, we just write to the first page to minimize
   // storage of redundant data
@@ -265,7 +280,6 @@ void writeRgbdTiff(
         tiff, *image, pageType, pageIndex, static_cast<uint16>(pageMap.size()));
     pageIndex++;
   }
-  TIFFClose(tiff);
 }
 
 } // namespace sumo
diff --git a/sumo-api/sumo/images/rgbd_tiff.pyx b/sumo-api/sumo/images/rgbd_tiff.pyx
index d500cc6..09bdd85 100644
--- a/sumo-api/sumo/images/rgbd_tiff.pyx
+++ b/sumo-api/sumo/images/rgbd_tiff.pyx
@@ -16,7 +16,7 @@ from libcpp.string cimport string
 from libcpp.utility cimport pair
 
 import sumo.geometry.inverse_depth as id
-from sumo.opencv.wrap cimport CV_8UC1
+from sumo.opencv.wrap cimport CV_8UC1, CV_16UC1
 from sumo.opencv.wrap cimport (
     array_from_mat3b, array_from_mat1b, array_from_mat1w)
 from sumo.opencv.wrap cimport Mat1b, Mat1w, Mat3b, Mat
@@ -98,9 +98,13 @@ def load(unicode path):
       else:
         page_map[MultiImagePageType.Depth] = array_from_mat1w(<Mat1w>it.second[0])
     elif it.first == TiffPageType.Category or it.first == TiffPageType.Instance:
+      if it.second[0].type() != CV_16UC1:
+        raise ValueError("rgbd_tiff.load label image is not uint16")
       page_map[kTiffToMultiImagePageType[it.first]] = array_from_mat1w(<Mat1w>it.second[0])
     del it.second
 
+  if MultiImagePageType.Depth not in page_map:
+    raise ValueError("rgbd_tiff.load inverse depth image not found")
   inv_depth = page_map[MultiImagePageType.Depth]
   assert inv_depth.ndim == 2
   # Convert inverse depth to depth using near plane from file metadata
-- 
2.43.0


From 808c9ea8a6eface87ae46025f137aadd745766d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:51 +0000
Subject: [PATCH 17/51] fix: report ply files that cannot be read or written

Every failure ended the process, as C++ exceptions were not passed on to
python, or went unnoticed: a full disk lost points without an error and a
truncated file gave arbitrary coordinates.
---
 sumo-api/sumo/threedee/point_cloud_ply.pxd   |  6 +++---
 sumo-api/sumo/threedee/point_cloud_ply_c.cpp | 19 ++++++++++++++++---
 sumo-api/sumo/threedee/tinyply/tinyply.cpp   |  4 ++--
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/sumo-api/sumo/threedee/point_cloud_ply.pxd b/sumo-api/sumo/threedee/point_cloud_ply.pxd
index a7d2759..b825499 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply.pxd
+++ b/sumo-api/sumo/threedee/point_cloud_ply.pxd
@@ -10,15 +10,15 @@ from libcpp.vector cimport vector
 cdef extern from "sumo/threedee/point_cloud_ply_c.h" namespace "sumo":
 
   # This is a wrapper for the function readPoints
-  cdef vector[float] readPoints(const char* filename)
+  cdef vector[float] readPoints(const char* filename) except +IOError
 
   # This is a wrapper for the function writePoints
   cdef void writePoints(
     vector[float]& vertex_points,
-    const char* filename)
+    const char* filename) except +IOError
 
   # This is a wrapper for the function writePointsAndColor
   cdef void writePointsAndColors(
     vector[float]& vertex_points,
     vector[unsigned char]& vertex_colors,
-    const char* filename)
+    const char* filename) except +IOError
diff --git a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
index 2456c73..ef954c8 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
+++ b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
@@ -34,7 +34,9 @@ vector<float> readPoints(const string& filename) {
 
   // Parse the ASCII header fields
   PlyFile file;
-  file.parse_header(ss);
+  if (!file.parse_header(ss)) {
+    throw runtime_error("readPoints found no valid header in " + filename);
+  }
   // The count returns the number of instances of the property group. The
   // vectors above will be resized into a multiple of the property group size
   // as they are "flattened"... i.e. vertices = {x, y, z, x, y, z, ...}
@@ -42,8 +44,15 @@ vector<float> readPoints(const string& filename) {
       file.request_properties_from_element("vertex", {"x", "y", "z"});
 
   file.read(ss);
+  if (ss.fail()) {
+    throw runtime_error("readPoints found a truncated file " + filename);
+  }
 
   const size_t numVerticesBytes = vertexData->buffer.size_bytes();
+  if (vertexData->t != Type::FLOAT32 ||
+      numVerticesBytes != 3 * sizeof(float) * vertexData->count) {
+    throw runtime_error("readPoints expects float vertices in " + filename);
+  }
   vector<float> vertices(3 * vertexData->count);
   memcpy(vertices.data(), vertexData->buffer.get(), numVerticesBytes);
 
@@ -70,7 +79,9 @@ void writePoints(vector<float>& vertex_points, const string& filename) {
       0);
   ostream outputStream(&fb);
   myFile.write(outputStream, true);
-  fb.close();
+  if (!outputStream || !fb.close()) {
+    throw runtime_error("writePoints error while writing " + filename);
+  }
 }
 
 void writePointsAndColors(
@@ -104,7 +115,9 @@ void writePointsAndColors(
       0);
   ostream outputStream(&fb);
   myFile.write(outputStream, true);
-  fb.close();
+  if (!outputStream || !fb.close()) {
+    throw runtime_error("writePointsAndColors error while writing " + filename);
+  }
 }
 
 } // namespace sumo
diff --git a/sumo-api/sumo/threedee/tinyply/tinyply.cpp b/sumo-api/sumo/threedee/tinyply/tinyply.cpp
index 475090d..eeeaedd 100755
--- a/sumo-api/sumo/threedee/tinyply/tinyply.cpp
+++ b/sumo-api/sumo/threedee/tinyply/tinyply.cpp
@@ -294,12 +294,12 @@ bool PlyFile::PlyFileImpl::parse_header(istream& is) {
     } else if (token == "obj_info") {
       read_header_text(line, ls, objInfo, 9);
     } else if (token == "end_header") {
-      break;
+      return true;
     } else {
       return false; // unexpected header field
     }
   }
-  return true;
+  return false; // no end of header
 }
 
 void PlyFile::PlyFileImpl::read_header_text(
-- 
2.43.0


From 850878437c19b91dd6b4e5ca0215b3f8e93e9c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:21 +0000
Subject: [PATCH 18/51] fix: VoxelEvaluator evaluates the submission against
 the ground truth

The two scenes were passed to the base class in the wrong order.
---
 sumo-api/sumo/metrics/voxel_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/voxel_evaluator.py b/sumo-api/sumo/metrics/voxel_evaluator.py
index f8dca81..ac5cedb 100644
--- a/sumo-api/sumo/metrics/voxel_evaluator.py
+++ b/sumo-api/sumo/metrics/voxel_evaluator.py
@@ -48,7 +48,7 @@ class VoxelEvaluator(Evaluator):
             posed_corners = e.pose.transform_all_from(bbox_corners)
             e.posed_bbox = ComputeBbox().from_point_cloud(posed_corners)
 
-        super(VoxelEvaluator, self).__init__(ground_truth, submission, settings)
+        super(VoxelEvaluator, self).__init__(submission, ground_truth, settings)
 
     def evaluate_all(self):
         """
-- 
2.43.0


From f4a1833752ff206541348d61e41317289b19f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:21 +0000
Subject: [PATCH 19/51] fix: MeshEvaluator works with its default settings

---
 sumo-api/sumo/metrics/mesh_evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index 93bdca7..85fe606 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -137,6 +137,9 @@ class MeshEvaluator(Evaluator):
         Evaluator.py for recognized keys and values.
         """
 
+        if settings is None:
+            settings = self.default_settings()
+
         # sample submission and GT and store in points field
         # also compute bounding box of each posed object
         for e in submission.elements.values():
-- 
2.43.0


From 44574012e09e1d3ba39f3af3f3aa2b907487dcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 20/51] fix: write a material without properties as an empty
 object

A material with nothing set was written as null, and the file could not be
loaded again.
---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index c0679f3..5e69c73 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -4605,7 +4605,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->materials.size()) {
     json materials;
     for (unsigned int i = 0; i < model->materials.size(); ++i) {
-      json material;
+      json material = json::object(); // a material may have no properties
       SerializeGltfMaterial(model->materials[i], material);
       materials.push_back(material);
     }
-- 
2.43.0


From ad40d49739279f0f063db5dddb504259d6c4ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 21/51] fix: report every error while a voxel file is written

HDF5 drops write errors of a data set that is closed, and can crash when the
disk stays full, so a grid could be lost without an exception.
---
 sumo-api/sumo/threedee/voxel_grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 12cde50..f76ad80 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -174,13 +174,17 @@ class VoxelGrid(object):
         IOError - if file cannot be written.
         """
         try:  # note: h5py does not document excption hanlding.  TODO: Verify this
-            with h5py.File(filename, "w") as f:
+            # HDF5 does not report all write errors, so it only formats the file in memory.
+            with h5py.File(filename, "w", driver="core", backing_store=False) as f:
                 f.create_dataset("voxels_3d", shape=self._voxels_3d.shape, data=self._voxels_3d, dtype='int32')
                 f.attrs["scale"] = self._scale
                 f.attrs["min_corner"] = self._min_corner
                 f.attrs["size_x"] = self._size_x
                 f.attrs["size_y"] = self._size_y
-                f.flush()  # close() does not report all errors
+                f.flush()
+                image = f.id.get_file_image()
+            with open(filename, "wb") as out:
+                out.write(image)
         except Exception as e:
             raise IOError("voxel file write failed. Err: " + str(e))
 
-- 
2.43.0


From fcacb053457ef0bae716a1d66b49d3902be1281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 22/51] fix: read 8-bit indices of glTF meshes

---
 sumo-api/sumo/threedee/GltfModel.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 76626f6..bbbc7c7 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -393,8 +393,8 @@ void GltfModel::extractPrimitiveMesh(const size_t meshIndex, Mesh* mesh) const {
   // Get indices
   int indicesAccessorIndex = primitive.indices;
   int component_type = getAccessorType(*this, indicesAccessorIndex);
-  // If component type is 16-bit, convert to 32 bit since Mesh indices are
-  // 32 bit.
+  // If component type is 8-bit or 16-bit, convert to 32 bit since Mesh indices
+  // are 32 bit.
   if (component_type == TINYGLTF_COMPONENT_TYPE_UNSIGNED_SHORT) {
     auto indexAccessor =
         getAccessor<unsigned short>(*this, indicesAccessorIndex);
@@ -402,6 +402,12 @@ void GltfModel::extractPrimitiveMesh(const size_t meshIndex, Mesh* mesh) const {
     vector<Mesh::Index> mesh_indices(
         short_indices.begin(), short_indices.end());
     mesh->indices_ = mesh_indices;
+  } else if (component_type == TINYGLTF_COMPONENT_TYPE_UNSIGNED_BYTE) {
+    auto indexAccessor =
+        getAccessor<unsigned char>(*this, indicesAccessorIndex);
+    vector<unsigned char> byte_indices = indexAccessor.asVector();
+    mesh->indices_ =
+        vector<Mesh::Index>(byte_indices.begin(), byte_indices.end());
   } else {
     auto indexAccessor = getAccessor<unsigned int>(*this, indicesAccessorIndex);
     mesh->indices_ = indexAccessor.asVector();
-- 
2.43.0


From 820008936735db5c2bbb3071c7e7b1c0c1f67355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 23/51] fix: do not ignore new material colors that have a zero
 component

---
 sumo-api/sumo/threedee/GltfModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index bbbc7c7..2beed77 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -579,7 +579,7 @@ void GltfModel::updateMaterial(
 
   // color == [0, 0, 0] implies no color, uri.size() == 0,
   // implies no texture
-  if (color[0] != 0 && color[1] != 0 && color[2] != 0) {
+  if (color[0] != 0 || color[1] != 0 || color[2] != 0) {
     // Update the color
     tinygltf::Parameter baseColorFactor;
     baseColorFactor.number_array = {color[0], color[1], color[2], 1};
-- 
2.43.0


From a17c21a2fb08680302bc7ef6d4aaff7ef51e21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 24/51] fix: write the metallic and roughness factors of
 colored materials

---
 sumo-api/sumo/threedee/GltfModel.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 2beed77..dec34f4 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -653,15 +653,17 @@ size_t GltfModel::addColoredMaterial(
     double metallic,
     double roughness) {
   tinygltf::Parameter baseColorFactor;
-  tinygltf::Parameter metallicFactor, roughNessFactor;
+  tinygltf::Parameter metallicFactor, roughnessFactor;
   baseColorFactor.number_array = {color[0], color[1], color[2], 1};
   metallicFactor.number_value = metallic;
-  roughNessFactor.number_value = roughness;
+  metallicFactor.has_number_value = true;
+  roughnessFactor.number_value = roughness;
+  roughnessFactor.has_number_value = true;
   tinygltf::Material material;
   material.name = name;
   material.values["baseColorFactor"] = baseColorFactor;
   material.values["metallicFactor"] = metallicFactor;
-  material.values["roughNessFactor"] = roughNessFactor;
+  material.values["roughnessFactor"] = roughnessFactor;
 
   this->materials.push_back(material);
   // Return material id
-- 
2.43.0


From 6296fa74045649d5e6e83f274dc2096e3ae46b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:01 +0000
Subject: [PATCH 25/51] fix: do not give a new image the file name of another
 image of the model

---
 sumo-api/sumo/threedee/GltfModel.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index dec34f4..2be80cc 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -188,10 +188,22 @@ int GltfModel::pushData(int target, const vector<T>& values) {
   return addAccessor<T>(values, bufferViewIndex);
 }
 
+// Return a file name for a new image that no other image has
+static string newImageURI(const vector<tinygltf::Image>& images) {
+  size_t number = images.size();
+  const auto taken = [&](const tinygltf::Image& image) {
+    return image.uri == to_string(number) + ".png";
+  };
+  while (any_of(images.begin(), images.end(), taken)) {
+    number++;
+  }
+  return to_string(number) + ".png";
+}
+
 int GltfModel::addTexture(const cv::Mat3b& cvImage) {
   // Add image
   tinygltf::Image image;
-  image.uri = to_string(images.size()) + ".png"; // Matches saveImages
+  image.uri = newImageURI(this->images); // Matches saveImages
   image.width = cvImage.cols;
   image.height = cvImage.rows;
   image.component = 3;
@@ -634,7 +646,7 @@ size_t GltfModel::loadTexture(
   if (start != string::npos && end != string::npos) {
     image.name = uri.substr(start, end-start);
   }
-  image.uri = to_string(images.size()) + ".png"; // Matches saveImages
+  image.uri = newImageURI(this->images); // Matches saveImages
   this->images.push_back(image);
 
   // Add texture
-- 
2.43.0


From 30531b408afbbaace4d82d61f88ad8d954d70876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 26/51] fix: load glTF files from folders with blanks and do
 not execute commands in URIs

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 53 ++------------------
 1 file changed, 3 insertions(+), 50 deletions(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 5e69c73..e2e78d0 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -1081,12 +1081,6 @@ class TinyGLTF {
 #pragma clang diagnostic pop
 #endif
 
-#ifdef _WIN32
-#include <windows.h>
-#elif !defined(__ANDROID__)
-#include <wordexp.h>
-#endif
-
 #if defined(__sparcv9)
 // Big endian
 #else
@@ -1574,50 +1568,9 @@ bool FileExists(const std::string& abs_filename, void*) {
 }
 
 std::string ExpandFilePath(const std::string& filepath, void*) {
-#ifdef _WIN32
-  DWORD len = ExpandEnvironmentStringsA(filepath.c_str(), NULL, 0);
-  char* str = new char[len];
-  ExpandEnvironmentStringsA(filepath.c_str(), str, len);
-
-  std::string s(str);
-
-  delete[] str;
-
-  return s;
-#else
-
-#if defined(TARGET_OS_IPHONE) || defined(TARGET_IPHONE_SIMULATOR) || \
-    defined(__ANDROID__)
-  // no expansion
-  std::string s = filepath;
-#else
-  std::string s;
-  wordexp_t p;
-
-  if (filepath.empty()) {
-    return "";
-  }
-
-  // char** w;
-  int ret = wordexp(filepath.c_str(), &p, 0);
-  if (ret) {
-    // err
-    s = filepath;
-    return s;
-  }
-
-  // Use first element only.
-  if (p.we_wordv) {
-    s = std::string(p.we_wordv[0]);
-    wordfree(&p);
-  } else {
-    s = filepath;
-  }
-
-#endif
-
-  return s;
-#endif
+  // No expansion: a file name is not shell input. (wordexp splits names at
+  // spaces and executes commands that a glTF file may name in its URIs.)
+  return filepath;
 }
 
 bool ReadWholeFile(
-- 
2.43.0


From c1f8da919f06b9c0597865693e4a3d3f995667e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 27/51] fix: never read a missing glTF resource from the
 working directory

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index e2e78d0..a507b09 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -1335,7 +1335,6 @@ static bool LoadExternalFile(
 
   std::vector<std::string> paths;
   paths.push_back(basedir);
-  paths.push_back(".");
 
   std::string filepath = FindFile(paths, filename, fs);
   if (filepath.empty() || filename.empty()) {
-- 
2.43.0


From 69349a475161de1cb38e7b37c6b21f25ed7d6bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:05 +0000
Subject: [PATCH 28/51] fix: restore the line endings of glb_converter.pyx

The previous fix of this file also converted them.
---
 sumo-api/sumo/threedee/glb_converter.pyx | 456 +++++++++++------------
 1 file changed, 228 insertions(+), 228 deletions(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 401fbb5..f80687e 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -1,228 +1,228 @@
-"""
-Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
-
-This source code is licensed under the MIT license found in the
-LICENSE file in the root directory of this source tree.
-
-GlTF to GLB converter.
-"""
-
-from __future__ import absolute_import
-from __future__ import division
-from __future__ import print_function
-from __future__ import unicode_literals
-
-import json
-import mimetypes
-import os
-import struct
-import sys
-
-
-class BodyEncoder:
-    """
-    Encode the binary chunks of the GLB's body
-    Use body_length and body_parts for tracking aligned binary data
-    """
-    def __init__(self, containing_dir):
-        """
-        Constructor
-
-        Input:
-        containing_dir (string) - Path for gltf file
-        """
-        self.containing_dir = containing_dir
-        self.body_length = 0
-        self.body_parts = []
-
-    def add_to_body(self, uri, length):
-        """
-        Adds an immediate or external data uri to the GLB's body
-
-        Inputs:
-        uri (string) - String of characters used to identify a resource
-        length (int) - Placeholder to store buffer length
-
-        Outputs:
-        offset (int) - Overall offset to current uri
-        length (int) - Length for current aligned uri buffer
-        """
-        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
-            buf = bytearray(f.read())
-
-        # 4-byte-aligned
-        length = (len(buf) + 3) & ~3
-        for _i in range(length - len(buf)):
-            buf.extend(b' ')
-
-        # Handle the buffer
-        offset = self.body_length
-        self.body_parts.append(offset)
-        self.body_parts.append(buf)
-        length = len(buf)
-        self.body_length += length
-        return (offset, length)
-
-
-class GlbEncoder:
-    """
-    Combine JSON header and binary body into a GLB with a proper header
-    """
-    def __init__(self, header, body):
-        """
-        Constructor
-
-        Inputs:
-        header - Packed gltf json in binary data
-        body (BodyEncoder) - Packed gltf resource in binary data
-        """
-        self.header = header
-        self.body = body
-
-    def export(self, filename):
-        """
-        Export the GLB file
-
-        Inputs:
-        filename (string) - Path for exported file path
-        """
-        with open(filename, 'wb') as f:
-            f.write(self.export_string())
-            f.close()
-
-    def export_string(self):
-        """ Export the GLB data"""
-
-        # Padded scene length to a multiple of 4 for 4-byte-aligned
-        l_aligned_len = (len(self.header) + 3) & ~3
-
-        for _i in range(l_aligned_len - len(self.header)):
-            self.header.extend(b' ')
-
-        glb_out = bytearray()
-        # 12 (file header): magic + version + length
-        # 8 (json chunk header): json length + type
-        # len(self.header): aligned json header length
-        # 8 (bin chunk header): chunk length + type
-        # self.body.body_length: aligned binary length
-        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
-
-        # Write the header
-        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
-        glb_out.extend(struct.pack('<I', 2))
-        glb_out.extend(struct.pack('<I', file_len))
-        glb_out.extend(struct.pack('<I', len(self.header)))
-
-        # Write binary json
-        glb_out.extend(struct.pack('<I', 0x4E4F534A))
-        glb_out += self.header
-        glb_out.extend(struct.pack('<I', self.body.body_length))
-        glb_out.extend(struct.pack('<I', 0x004E4942))
-
-        # Write the body
-        for i in range(0, len(self.body.body_parts), 2):
-            contents = self.body.body_parts[i + 1]
-            glb_out += contents
-
-        return glb_out
-
-
-def gltf2glb(input_glTF, output_glb=None):
-    """
-    Convert glTF2 files into a single glb file
-
-    Inputs:
-    input_glTF (string) - Path for input gltf file path
-    output_glb (string) - Path for output glb file path
-    """
-    # Check if input file is with gltf extension
-    if not input_glTF.endswith('.gltf'):
-        print("Failed to create binary GLTF file: input is not *.gltf")
-        sys.exit(-1)
-
-    # Save default glb file name and location using input gltf file name
-    ext = 'glb'
-    fname_out \
-        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
-
-    if output_glb is not None:
-        fname_out = output_glb
-    else:
-        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
-
-    with open(input_glTF, 'rb') as f:
-        gltf = f.read()
-
-    gltf = gltf.decode('utf-8')
-    gltf_json = json.loads(gltf)
-
-    # Set up body_encoder
-    body_encoder \
-        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
-
-    buffer_map = {}
-    buffer_offset = 0
-    buffer_length = 0
-    buffer_index = 0
-
-    for i, _val in enumerate(gltf_json["buffers"]):
-        try:
-            length = gltf_json["buffers"][i]["byteLength"]
-        except KeyError:
-            length = None
-
-        offset, length \
-            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
-
-        del gltf_json["buffers"][i]["uri"]
-        gltf_json["buffers"][i]["byteLength"] = length
-
-        buffer_index = i
-        buffer_map[buffer_index] = buffer_offset
-        buffer_offset += length
-
-    # Iterate over the bufferViews to
-    # move buffers into the single GLB buffer body
-    for bufview in gltf_json["bufferViews"]:
-        bufview["byteOffset"] \
-            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
-
-        bufview["buffer"] = 0
-
-    # Iterate over images
-    if 'images' in gltf_json:
-        for i, image in enumerate(gltf_json["images"]):
-            uri = image["uri"]
-            if not uri:
-                raise ValueError("GLTF image has empty URI.")
-            buffer_map[buffer_index] = buffer_offset
-            offset, length = body_encoder.add_to_body(uri, None)
-
-            buffer_view = {
-                "buffer": 0,
-                "byteOffset": offset,
-                "byteLength": length
-            }
-
-            # Update buffer_offset after add data into binary
-            buffer_index += 1
-            buffer_offset = offset
-            buffer_length = length
-            buffer_view_index = len(gltf_json["bufferViews"])
-            gltf_json["bufferViews"].append(buffer_view)
-            image["bufferView"] = buffer_view_index
-
-            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
-            image["mimeType"] = fileType
-            del image["uri"]
-
-    #TODO: In our model pool, they doesn't contain shader resource.
-    #if 'shaders' in gltf_json:
-
-    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
-    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
-    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-
-    # Pack both binary json and data into single glb file
-    encoder = GlbEncoder(gltf_str, body_encoder)
-    encoder.export(fname_out)
+"""
+Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
+
+This source code is licensed under the MIT license found in the
+LICENSE file in the root directory of this source tree.
+
+GlTF to GLB converter.
+"""
+
+from __future__ import absolute_import
+from __future__ import division
+from __future__ import print_function
+from __future__ import unicode_literals
+
+import json
+import mimetypes
+import os
+import struct
+import sys
+
+
+class BodyEncoder:
+    """
+    Encode the binary chunks of the GLB's body
+    Use body_length and body_parts for tracking aligned binary data
+    """
+    def __init__(self, containing_dir):
+        """
+        Constructor
+
+        Input:
+        containing_dir (string) - Path for gltf file
+        """
+        self.containing_dir = containing_dir
+        self.body_length = 0
+        self.body_parts = []
+
+    def add_to_body(self, uri, length):
+        """
+        Adds an immediate or external data uri to the GLB's body
+
+        Inputs:
+        uri (string) - String of characters used to identify a resource
+        length (int) - Placeholder to store buffer length
+
+        Outputs:
+        offset (int) - Overall offset to current uri
+        length (int) - Length for current aligned uri buffer
+        """
+        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
+            buf = bytearray(f.read())
+
+        # 4-byte-aligned
+        length = (len(buf) + 3) & ~3
+        for _i in range(length - len(buf)):
+            buf.extend(b' ')
+
+        # Handle the buffer
+        offset = self.body_length
+        self.body_parts.append(offset)
+        self.body_parts.append(buf)
+        length = len(buf)
+        self.body_length += length
+        return (offset, length)
+
+
+class GlbEncoder:
+    """
+    Combine JSON header and binary body into a GLB with a proper header
+    """
+    def __init__(self, header, body):
+        """
+        Constructor
+
+        Inputs:
+        header - Packed gltf json in binary data
+        body (BodyEncoder) - Packed gltf resource in binary data
+        """
+        self.header = header
+        self.body = body
+
+    def export(self, filename):
+        """
+        Export the GLB file
+
+        Inputs:
+        filename (string) - Path for exported file path
+        """
+        with open(filename, 'wb') as f:
+            f.write(self.export_string())
+            f.close()
+
+    def export_string(self):
+        """ Export the GLB data"""
+
+        # Padded scene length to a multiple of 4 for 4-byte-aligned
+        l_aligned_len = (len(self.header) + 3) & ~3
+
+        for _i in range(l_aligned_len - len(self.header)):
+            self.header.extend(b' ')
+
+        glb_out = bytearray()
+        # 12 (file header): magic + version + length
+        # 8 (json chunk header): json length + type
+        # len(self.header): aligned json header length
+        # 8 (bin chunk header): chunk length + type
+        # self.body.body_length: aligned binary length
+        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
+
+        # Write the header
+        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
+        glb_out.extend(struct.pack('<I', 2))
+        glb_out.extend(struct.pack('<I', file_len))
+        glb_out.extend(struct.pack('<I', len(self.header)))
+
+        # Write binary json
+        glb_out.extend(struct.pack('<I', 0x4E4F534A))
+        glb_out += self.header
+        glb_out.extend(struct.pack('<I', self.body.body_length))
+        glb_out.extend(struct.pack('<I', 0x004E4942))
+
+        # Write the body
+        for i in range(0, len(self.body.body_parts), 2):
+            contents = self.body.body_parts[i + 1]
+            glb_out += contents
+
+        return glb_out
+
+
+def gltf2glb(input_glTF, output_glb=None):
+    """
+    Convert glTF2 files into a single glb file
+
+    Inputs:
+    input_glTF (string) - Path for input gltf file path
+    output_glb (string) - Path for output glb file path
+    """
+    # Check if input file is with gltf extension
+    if not input_glTF.endswith('.gltf'):
+        print("Failed to create binary GLTF file: input is not *.gltf")
+        sys.exit(-1)
+
+    # Save default glb file name and location using input gltf file name
+    ext = 'glb'
+    fname_out \
+        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
+
+    if output_glb is not None:
+        fname_out = output_glb
+    else:
+        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
+
+    with open(input_glTF, 'rb') as f:
+        gltf = f.read()
+
+    gltf = gltf.decode('utf-8')
+    gltf_json = json.loads(gltf)
+
+    # Set up body_encoder
+    body_encoder \
+        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
+
+    buffer_map = {}
+    buffer_offset = 0
+    buffer_length = 0
+    buffer_index = 0
+
+    for i, _val in enumerate(gltf_json["buffers"]):
+        try:
+            length = gltf_json["buffers"][i]["byteLength"]
+        except KeyError:
+            length = None
+
+        offset, length \
+            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
+
+        del gltf_json["buffers"][i]["uri"]
+        gltf_json["buffers"][i]["byteLength"] = length
+
+        buffer_index = i
+        buffer_map[buffer_index] = buffer_offset
+        buffer_offset += length
+
+    # Iterate over the bufferViews to
+    # move buffers into the single GLB buffer body
+    for bufview in gltf_json["bufferViews"]:
+        bufview["byteOffset"] \
+            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
+
+        bufview["buffer"] = 0
+
+    # Iterate over images
+    if 'images' in gltf_json:
+        for i, image in enumerate(gltf_json["images"]):
+            uri = image["uri"]
+            if not uri:
+                raise ValueError("GLTF image has empty URI.")
+            buffer_map[buffer_index] = buffer_offset
+            offset, length = body_encoder.add_to_body(uri, None)
+
+            buffer_view = {
+                "buffer": 0,
+                "byteOffset": offset,
+                "byteLength": length
+            }
+
+            # Update buffer_offset after add data into binary
+            buffer_index += 1
+            buffer_offset = offset
+            buffer_length = length
+            buffer_view_index = len(gltf_json["bufferViews"])
+            gltf_json["bufferViews"].append(buffer_view)
+            image["bufferView"] = buffer_view_index
+
+            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
+            image["mimeType"] = fileType
+            del image["uri"]
+
+    #TODO: In our model pool, they doesn't contain shader resource.
+    #if 'shaders' in gltf_json:
+
+    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
+    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
+    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
+
+    # Pack both binary json and data into single glb file
+    encoder = GlbEncoder(gltf_str, body_encoder)
+    encoder.export(fname_out)
-- 
2.43.0


From 3ae77e36eef7a9c9694908bd91c5f46d94c83fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 29/51] fix: glTF files with several buffers become valid GLB
 files

All buffers are packed into the body of the GLB file, but the entries of
the other buffers stayed, without data.
---
 sumo-api/sumo/threedee/glb_converter.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index f80687e..ba6f28f 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -219,6 +219,8 @@ def gltf2glb(input_glTF, output_glb=None):
     #TODO: In our model pool, they doesn't contain shader resource.
     #if 'shaders' in gltf_json:
 
+    # The body is the only buffer of a glb file
+    del gltf_json["buffers"][1:]
     gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
     lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
     gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-- 
2.43.0


From d46f7ca50168b783a686176903737a497fdcb571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:12 +0000
Subject: [PATCH 30/51] fix: save every buffer of a glTF model in a file of its
 own

Each buffer of a model with several ones (loaded from a glTF file) replaced
the file of the buffer before, so that the saved model was wrong.
---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index a507b09..c8e8495 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -4497,10 +4497,16 @@ bool TinyGLTF::WriteGltfSceneToFile(
 
   std::string binSaveFilePath = JoinPath(baseDir, binFilename);
 
-  // BUFFERS (We expect only one buffer here)
+  // BUFFERS (the first one in <name>.bin, others in <name>_<i>.bin)
+  const std::string binStem =
+      binFilename.substr(0, binFilename.size() - ext.size());
   json buffers;
   for (unsigned int i = 0; i < model->buffers.size(); ++i) {
     json buffer;
+    if (i > 0) {
+      binFilename = binStem + "_" + std::to_string(i) + ext;
+      binSaveFilePath = JoinPath(baseDir, binFilename);
+    }
     if (embedBuffers) {
       SerializeGltfBuffer(model->buffers[i], buffer);
     } else {
-- 
2.43.0


From 179b507a6b985e626f9261d7319a8e44e2903a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:20 +0000
Subject: [PATCH 31/51] fix: gltf2glb rejects buffer files that are too short

The images that follow were taken for the missing part of the buffer, so
a truncated model became a wrong one without any error.
---
 sumo-api/sumo/threedee/glb_converter.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index ba6f28f..fddf479 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -41,7 +41,7 @@ class BodyEncoder:
 
         Inputs:
         uri (string) - String of characters used to identify a resource
-        length (int) - Placeholder to store buffer length
+        length (int) - Number of bytes the resource must have (None if unknown)
 
         Outputs:
         offset (int) - Overall offset to current uri
@@ -49,6 +49,8 @@ class BodyEncoder:
         """
         with open(os.path.join(self.containing_dir, uri), 'rb') as f:
             buf = bytearray(f.read())
+        if length is not None and len(buf) < length:
+            raise IOError("GLTF resource {} is incomplete.".format(uri))
 
         # 4-byte-aligned
         length = (len(buf) + 3) & ~3
-- 
2.43.0


From d3f31e3b89a2401b9a54f6b35a8a952113b5fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:28 +0000
Subject: [PATCH 32/51] fix: do not read a TIFF page with a torn description as
 another image

---
 sumo-api/sumo/images/RgbdTiff.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/images/RgbdTiff.cpp b/sumo-api/sumo/images/RgbdTiff.cpp
index 794cacc..6ebc492 100644
--- a/sumo-api/sumo/images/RgbdTiff.cpp
+++ b/sumo-api/sumo/images/RgbdTiff.cpp
@@ -130,7 +130,12 @@ void writeMetadata(TIFF*tiff, const TiffMetadata& meta) {
 // 1. 8-bit 3-channel RGB image
 // 2. 8-bit 1-channel depth image (for backwards compatibility)
 // 3. 16-bit 1-channel depth image
-bool readImage(TIFF* tiff, TiffPageMap* const pageMap) {
+// Throws a runtime_error for pages a complete file cannot have (e.g. a page
+// description that was only written in part)
+bool readImage(
+    TIFF* tiff,
+    const TiffMetadata& meta,
+    TiffPageMap* const pageMap) {
   int status;
   uint32 width, height;
   uint16 samplesPerPixel;
@@ -149,6 +154,10 @@ bool readImage(TIFF* tiff, TiffPageMap* const pageMap) {
       !TIFFGetField(tiff, TIFFTAG_IMAGELENGTH, &height)) {
     throw runtime_error("readImage: image without dimensions");
   }
+  if (samplesPerPixel == 1 && bitsPerSample == 8 && meta.version > 0) {
+    // 8-bit depth images are older than the metadata
+    throw runtime_error("readImage: unexpected 8-bit depth image");
+  }
   TiffPageType pageType = readTiffPageType(tiff, samplesPerPixel);
   auto pageEntry = pageMap->find(pageType);
   if (pageEntry == pageMap->end()) {
@@ -157,6 +166,9 @@ bool readImage(TIFF* tiff, TiffPageMap* const pageMap) {
   }
 
   cv::Mat* img = pageEntry->second;
+  if (!img->empty()) {
+    throw runtime_error("readImage: two images of the same type");
+  }
   if (samplesPerPixel == 3) {
     img->create(height, width, CV_8UC3);
   }
@@ -200,7 +212,7 @@ void readRgbdTiff(
   // Metadata is always written to first page
   readMetadata(tiff, meta);
   // Keep reading images until there are none left
-  while (readImage(tiff, pageMap) && !TIFFLastDirectory(tiff)) {
+  while (readImage(tiff, *meta, pageMap) && !TIFFLastDirectory(tiff)) {
     if (TIFFReadDirectory(tiff) != 1) {
       throw runtime_error("readRgbdTiff: error reading directory in " + path);
     }
-- 
2.43.0


From 4fabc6c05c57348d60283a782271aed5131348e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:28 +0000
Subject: [PATCH 33/51] fix: a failed TIFF save leaves no page with incomplete
 data

---
 sumo-api/sumo/images/RgbdTiff.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/images/RgbdTiff.cpp b/sumo-api/sumo/images/RgbdTiff.cpp
index 6ebc492..059b8b2 100644
--- a/sumo-api/sumo/images/RgbdTiff.cpp
+++ b/sumo-api/sumo/images/RgbdTiff.cpp
@@ -288,8 +288,19 @@ void writeRgbdTiff(
       continue;
     }
     const cv::Mat* image = pageMap.at(pageType);
-    writeImage(
-        tiff, *image, pageType, pageIndex, static_cast<uint16>(pageMap.size()));
+    try {
+      writeImage(
+          tiff,
+          *image,
+          pageType,
+          pageIndex,
+          static_cast<uint16>(pageMap.size()));
+    } catch (...) {
+      // Discard the page, otherwise TIFFClose would add it to the file although
+      // its image data is incomplete
+      TIFFCreateDirectory(tiff);
+      throw;
+    }
     pageIndex++;
   }
 }
-- 
2.43.0


From 98b86591d94e28fcc514052a3b4a794f5ffa917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:46 +0000
Subject: [PATCH 34/51] fix: converting a right-angle rotation to Euler angles
 no longer fails by rounding

---
 sumo-api/sumo/metrics/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/utils.py b/sumo-api/sumo/metrics/utils.py
index 4bc0528..683d3b8 100644
--- a/sumo-api/sumo/metrics/utils.py
+++ b/sumo-api/sumo/metrics/utils.py
@@ -143,9 +143,11 @@ def quat_to_euler(q):
     atan2( 2*(qy.*qz+qw.*qx), qw.^2 - qx.^2 - qy.^2 + qz.^2 )];
 
     """
+    # rounding can leave the sine of a right angle slightly outside [-1, 1]
+    sin_y = max(-1.0, min(1.0, -2 * (q[1] * q[3] - q[0] * q[2])))
     return np.array([math.atan2(2 * (q[1] * q[2] + q[0] * q[3]),
                                 q[0] * q[0] + q[1] * q[1] - q[2] * q[2] - q[3] * q[3]),
-                     math.asin(-2 * (q[1] * q[3] - q[0] * q[2])),
+                     math.asin(sin_y),
                      math.atan2(2 * (q[2] * q[3] + q[0] * q[1]),
                                 q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3])])
 
-- 
2.43.0


From e43b2b4a6be8f477075c7f85ba5bcebbac1f5e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:07 +0000
Subject: [PATCH 35/51] fix: rotation errors near 180 degrees are no longer
 arbitrary values above pi

---
 sumo-api/sumo/metrics/evaluator.py |  4 +---
 sumo-api/sumo/metrics/utils.py     | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/metrics/evaluator.py b/sumo-api/sumo/metrics/evaluator.py
index c562832..8802378 100644
--- a/sumo-api/sumo/metrics/evaluator.py
+++ b/sumo-api/sumo/metrics/evaluator.py
@@ -11,7 +11,6 @@ Algorithm class: Evaluate a mesh track submission
 from copy import deepcopy
 import math
 import numpy as np
-from scipy.linalg import logm
 
 from sumo.base.vector import Vector2
 from sumo.geometry.rot3 import Rot3
@@ -403,8 +402,7 @@ class Evaluator():
 
         # get minimum error
         # Eq. 8, source: https://chrischoy.github.io/research/measuring-rotation/
-        errors = [np.sqrt(0.5) *
-                  np.linalg.norm(logm(np.matmul(det_element.pose.R.R.T, gt_rot.R)))
+        errors = [utils.rotation_angle(np.matmul(det_element.pose.R.R.T, gt_rot.R))
                   for gt_rot in rots_to_check]
         return min(errors)
 
diff --git a/sumo-api/sumo/metrics/utils.py b/sumo-api/sumo/metrics/utils.py
index 683d3b8..78ba57c 100644
--- a/sumo-api/sumo/metrics/utils.py
+++ b/sumo-api/sumo/metrics/utils.py
@@ -210,6 +210,23 @@ def matrix_to_euler(matrix):
     """
     return quat_to_euler(matrix_to_quat(matrix))
 
+
+def rotation_angle(matrix):
+    """
+    Compute the angle of a rotation, which is sqrt(1/2) * ||log(matrix)||.
+    (The logarithm itself is not usable for angles near pi.)
+
+    Inputs:
+    matrix (numpy 3x3 numpy array2 of float) - rotation matrix
+
+    Return:
+    float - angle in radians (0 to pi)
+    """
+    sin_axis = [matrix[2, 1] - matrix[1, 2],
+                matrix[0, 2] - matrix[2, 0],
+                matrix[1, 0] - matrix[0, 1]]
+    return math.atan2(np.linalg.norm(sin_axis), np.trace(matrix) - 1.0)
+
 #-------------------------------------
 # Precision recall curves
 #-------------------------------------
-- 
2.43.0


From c669d5e766e5c7bc526bbd79edc2e44a31a2fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:13 +0000
Subject: [PATCH 36/51] fix: sampling or voxelizing a model without faces no
 longer fails

---
 sumo-api/sumo/metrics/mesh_evaluator.py  | 2 +-
 sumo-api/sumo/threedee/model_sampler.pyx | 4 ++--
 sumo-api/sumo/threedee/voxelizer.pyx     | 2 ++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index 85fe606..10bee21 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -35,7 +35,7 @@ def sample_element(element, density=625):
     # count the # of faces in all the component meshes
     # and allocate space for faces
     counts = [m.num_indices() for m in element.meshes.primitive_meshes()]
-    n_faces3 = np.sum(counts)  # 3 x num faces
+    n_faces3 = int(np.sum(counts))  # 3 x num faces (0 if there are no meshes)
     faces = np.zeros((n_faces3, 6))
 
     # build faces list from element component meshes
diff --git a/sumo-api/sumo/threedee/model_sampler.pyx b/sumo-api/sumo/threedee/model_sampler.pyx
index 6db6298..d069f36 100644
--- a/sumo-api/sumo/threedee/model_sampler.pyx
+++ b/sumo-api/sumo/threedee/model_sampler.pyx
@@ -31,7 +31,7 @@ class ModelSampler(object):
         # count the # of faces in all the component meshes
         # and allocate space for faces
         counts = [m.num_indices() for m in model.primitive_meshes()]
-        n_faces3 = np.sum(counts)  # 3 x num faces
+        n_faces3 = int(np.sum(counts))  # 3 x num faces (0 if there are no meshes)
         faces = np.zeros((n_faces3, 6))
 
         # build faces list from element component meshes
@@ -102,7 +102,7 @@ def _sample_mesh(faces, density=625):
     N = np.sum(Nsamples_per_face)  # N = total # of samples
 
     if N == 0:
-        return np.empty((0, 3))
+        return np.empty((0, faces.shape[1]))
 
     face_ids = np.zeros((N,), dtype=int)  # reserve space for result
 
diff --git a/sumo-api/sumo/threedee/voxelizer.pyx b/sumo-api/sumo/threedee/voxelizer.pyx
index 398933f..d42c391 100644
--- a/sumo-api/sumo/threedee/voxelizer.pyx
+++ b/sumo-api/sumo/threedee/voxelizer.pyx
@@ -44,6 +44,8 @@ class Voxelizer(object):
         """
         sampler = ModelSampler(self._sampling_density)
         points = sampler.run(model)
+        if points.shape[0] == 0:  # nothing to voxelize
+            return VoxelGrid(self._voxel_size)
         bbox = ComputeBbox().from_point_cloud(points[:,0:3].T)
         return VoxelGrid(self._voxel_size, bbox.min_corner, points[:,0:3])
             
-- 
2.43.0


From cde012c77942cfb337b2c247110b92d82e291649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:07 +0000
Subject: [PATCH 37/51] fix: sampled points get the texel at their texture
 coordinates (u is the column, v the row)

---
 sumo-api/sumo/metrics/mesh_evaluator.py  | 4 ++--
 sumo-api/sumo/threedee/model_sampler.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index 10bee21..24c1efb 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -61,8 +61,8 @@ def sample_element(element, density=625):
         else:
             uv_coords = posed_mesh.uv_coords()  # 2 x N_verts
             temp2 = uv_coords[:, posed_mesh.indices()]  # 2 x N_indices
-            r = np.mod(np.floor(temp2[0, :] * h).astype(int), h)  # 1 x n_vertices
-            c = np.mod(np.floor(temp2[1, :] * w).astype(int), w)  # "
+            r = np.mod(np.floor(temp2[1, :] * h).astype(int), h)  # 1 x n_vertices
+            c = np.mod(np.floor(temp2[0, :] * w).astype(int), w)  # "
             colors = posed_mesh.base_color()[r, c, :]
 
         faces[start:start + counts[i], 3:6] = colors
diff --git a/sumo-api/sumo/threedee/model_sampler.pyx b/sumo-api/sumo/threedee/model_sampler.pyx
index d069f36..243ca78 100644
--- a/sumo-api/sumo/threedee/model_sampler.pyx
+++ b/sumo-api/sumo/threedee/model_sampler.pyx
@@ -54,8 +54,8 @@ class ModelSampler(object):
             else:
                 uv_coords = mesh.uv_coords()  # 2 x N_verts
                 temp2 = uv_coords[:, mesh.indices()]  # 2 x N_indices
-                r = np.mod(np.floor(temp2[0,:] * h).astype(int), h)  # 1 x n_vertices
-                c = np.mod(np.floor(temp2[1,:] * w).astype(int), w)  # "
+                r = np.mod(np.floor(temp2[1,:] * h).astype(int), h)  # 1 x n_vertices
+                c = np.mod(np.floor(temp2[0,:] * w).astype(int), w)  # "
                 colors = mesh.base_color()[r, c, :]
 
             faces[start:start+counts[i], 3:6] = colors
-- 
2.43.0


From 7f2104f8b733007e1e68579ba19ea9bbc7dd2f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:28 +0000
Subject: [PATCH 38/51] fix: a mesh without a texture no longer gets the
 texture of another mesh of its model

---
 sumo-api/sumo/threedee/GltfModel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 2be80cc..6f8cea0 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -344,6 +344,8 @@ void GltfModel::addTexturedPrimitiveMesh(const TexturedMesh& mesh) {
     } else {
       throw runtime_error("addTexturedPrimitiveMesh: inconsistent material.");
     }
+  } else { // do not refer to a texture of another mesh
+    material.values.erase("baseColorTexture");
   }
 
   // Add metallic/roughness if it exists in mesh
@@ -356,6 +358,8 @@ void GltfModel::addTexturedPrimitiveMesh(const TexturedMesh& mesh) {
     } else {
       throw runtime_error("addTexturedPrimitiveMesh: inconsistent material.");
     }
+  } else {
+    material.values.erase("metallicRoughnessTexture");
   }
   this->materials.pop_back();
   this->materials.push_back(material);
-- 
2.43.0


From cec619944758a90c4efe44b0a33457455a644d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:24 +0000
Subject: [PATCH 39/51] fix: a mesh can be merged with, or replaced by, itself

---
 sumo-api/sumo/threedee/Mesh.cpp         | 11 +++++++++++
 sumo-api/sumo/threedee/TexturedMesh.cpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/sumo-api/sumo/threedee/Mesh.cpp b/sumo-api/sumo/threedee/Mesh.cpp
index deaeb98..c8d2e6b 100644
--- a/sumo-api/sumo/threedee/Mesh.cpp
+++ b/sumo-api/sumo/threedee/Mesh.cpp
@@ -148,6 +148,13 @@ Mesh Mesh::Example(
 }
 
 void Mesh::merge(const Mesh& mesh2, size_t numCommonVertices) {
+  if (&mesh2 == this) {
+    // The vectors of a mesh cannot grow while they are being read.
+    const Mesh copy(mesh2);
+    merge(copy, numCommonVertices);
+    return;
+  }
+
   // Merge the indices.
   const size_t offset = numVertices() - numCommonVertices;
   for (const size_t& index2 : mesh2.indices()) {
@@ -165,6 +172,10 @@ void Mesh::merge(const Mesh& mesh2, size_t numCommonVertices) {
 }
 
 void Mesh::replaceGeometry(const Mesh& mesh2) {
+  if (&mesh2 == this) {
+    return;
+  }
+
   //Replace the geometry of the mesh.
   indices_.clear();
   vertices_.clear();
diff --git a/sumo-api/sumo/threedee/TexturedMesh.cpp b/sumo-api/sumo/threedee/TexturedMesh.cpp
index 95fe44a..b9f6388 100644
--- a/sumo-api/sumo/threedee/TexturedMesh.cpp
+++ b/sumo-api/sumo/threedee/TexturedMesh.cpp
@@ -76,6 +76,13 @@ void TexturedMesh::renumber(
 }
 
 void TexturedMesh::merge(const TexturedMesh& mesh2, size_t numCommonVertices) {
+  if (&mesh2 == this) {
+    // The vectors of a mesh cannot grow while they are being read.
+    const TexturedMesh copy(mesh2);
+    merge(copy, numCommonVertices);
+    return;
+  }
+
   // Call base class method
   Mesh::merge(mesh2, numCommonVertices);
 
@@ -89,6 +96,10 @@ void TexturedMesh::merge(const TexturedMesh& mesh2, size_t numCommonVertices) {
 }
 
 void TexturedMesh::replaceGeometry(const TexturedMesh& mesh2) {
+  if (&mesh2 == this) {
+    return;
+  }
+
   indices_.clear();
   vertices_.clear();
   normals_.clear();
-- 
2.43.0


From 72b9ce961f229b1b4c12ec249efdb043c7b43b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:16 +0000
Subject: [PATCH 40/51] fix: colored and uncolored point clouds are not
 silently joined

---
 sumo-api/sumo/threedee/point_cloud.pyx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index 10c79f7..1281a4f 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -47,6 +47,12 @@ cdef vector[CColor] colors_of_array(np.ndarray colors):
       cpp_colors.push_back(cpp_color)
   return cpp_colors
 
+# A cloud has either a color for each of its points, or no colors at all
+cdef void check_same_coloring(const CPointCloud* first, const CPointCloud* second) except *:
+  if (first.numPoints() > 0 and second.numPoints() > 0
+      and first.colored() != second.colored()):
+    raise ValueError("Can't merge colored point cloud with non-colored point cloud.")
+
 # This is the python wrapper class which dispatches to the C++ class
 cdef class PointCloud:
   def __init__(self,
@@ -78,8 +84,6 @@ cdef class PointCloud:
   @classmethod
   def merge(cls, first, second):
       """ Return a new instance that merges the two point clouds."""
-      if first.colored() and not second.colored():
-          raise ValueError("Can't merge colored point cloud with non-colored point cloud.")
       result = cls()
       result.append(first)
       result.append(second)
@@ -93,11 +97,15 @@ cdef class PointCloud:
       """
       cdef PointCloud w_point_cloud
       cdef const CPointCloud* cloud_ptr
+      cdef const CPointCloud* first_ptr = NULL
       cdef vector[const CPointCloud*] clouds
       point_clouds = [] # to keep python objects from being garbage-collected
       for wTc, c_point_cloud in iterator:
           w_point_cloud = c_point_cloud.transform_from(wTc)
           cloud_ptr = w_point_cloud._c_ptr
+          if first_ptr == NULL or first_ptr.numPoints() == 0:
+              first_ptr = cloud_ptr
+          check_same_coloring(first_ptr, cloud_ptr)
           clouds.push_back(cloud_ptr)
           point_clouds.append(w_point_cloud)
       wrapper = <PointCloud>PointCloud.__new__(PointCloud)
@@ -119,6 +127,7 @@ cdef class PointCloud:
 
   def append(self, PointCloud other):
       """ Append the points (and colors) of the other instance. Imperative."""
+      check_same_coloring(self._c_ptr, other._c_ptr)
       self._c_ptr.append(other._c_ptr[0])
 
   def point(self, size_t i):
-- 
2.43.0


From 22ed5bd04886fc4ff64dbad27840d96a9b0cbf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 41/51] fix: default poses and rotations no longer share one
 array

---
 sumo-api/sumo/geometry/pose3.pyx | 11 +++++------
 sumo-api/sumo/geometry/rot3.pyx  |  6 +++---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index 11c8db9..7341c04 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -22,14 +22,13 @@ from sumo.geometry.rot3 import Rot3
 class Pose3:
     # TODO: (dellaert) T21391110 cdef np.ndarray R_, t_
 
-    def __init__(self, R=np.identity(3, dtype=float),
-                       np.ndarray t=Vector3(0, 0, 0)):
-        """Create a Pose3 instance."""
+    def __init__(self, R=None, np.ndarray t=None):
+        """Create a Pose3 instance (identity by default)."""
         if isinstance(R, Rot3):
             self.R = R
         else:
             self.R = Rot3(R)
-        self.t = t
+        self.t = Vector3(0, 0, 0) if t is None else t
 
     def __str__(self):
         return "Pose3: t={}; R=\n{}".format(str(self.t), str(self.R))
@@ -108,7 +107,7 @@ class Pose3:
 
     @classmethod
     def ENU_camera(cls, float roll=0, float pitch=0, float yaw=0,
-                   np.ndarray position=Vector3(0, 0, 0)):
+                   np.ndarray position=None):
         """Create ENU_T_camera where default is upright, level, facing north.
            The transform is from camera coordinates (Z depth, Y down) to a local
            ENU frame, i.e., X=East, Y=North, Z=Up. Optionally, perturb via:
@@ -121,7 +120,7 @@ class Pose3:
 
     @classmethod
     def Maya_camera(cls, float roll=0, float pitch=0, float yaw=0,
-                   np.ndarray position=Vector3(0, 0, 0)):
+                   np.ndarray position=None):
         """Create Maya_T_camera where default is upright, level, facing -z.
            The transform is from camera coordinates (Z depth, Y down) to the
            Maya frame, i.e., right-handed coordinate frame with Y=up.
diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index e2176ff..5970364 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -27,9 +27,9 @@ MAYA_R_CAMERA = np.transpose(
 
 
 class Rot3:
-    def __init__(self, np.ndarray R=np.identity(3, dtype=float)):
-        """Create a Rot3 instance."""
-        self.R = R
+    def __init__(self, np.ndarray R=None):
+        """Create a Rot3 instance (identity by default)."""
+        self.R = np.identity(3, dtype=float) if R is None else R
 
     def matrix(self):
         """Return 3*3 matrix."""
-- 
2.43.0


From 5c5c3713aa91513130fe02e491a104b04e6b1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:04 +0000
Subject: [PATCH 42/51] fix: an unknown category id next to the last one raises
 KeyError

---
 sumo-api/sumo/base/colored_category.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/base/colored_category.pyx b/sumo-api/sumo/base/colored_category.pyx
index 20b7d15..e60efd8 100644
--- a/sumo-api/sumo/base/colored_category.pyx
+++ b/sumo-api/sumo/base/colored_category.pyx
@@ -112,7 +112,7 @@ class ColoredCategory(object):
         Exceptions:
         KeyError - if category_id does not exist in the dataset config.
         """
-        if category_id > len(self._data) or category_id < 0:
+        if category_id >= len(self._data) or category_id < 0:
             raise KeyError("Category id {} does not exist.".format(category_id))
         return self._data[category_id]["color"]
 
-- 
2.43.0


From ebf687fbdf50721881e69f8f27d099f9188eb4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:27 +0000
Subject: [PATCH 43/51] fix: images that are not contiguous raise ValueError
 instead of crashing the process

---
 sumo-api/sumo/opencv/wrap.pxd | 10 +++++-----
 sumo-api/sumo/opencv/wrap.pyx | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/sumo-api/sumo/opencv/wrap.pxd b/sumo-api/sumo/opencv/wrap.pxd
index d87aa94..4a3c9c4 100644
--- a/sumo-api/sumo/opencv/wrap.pxd
+++ b/sumo-api/sumo/opencv/wrap.pxd
@@ -70,11 +70,11 @@ cdef extern from "<opencv2/core/core.hpp>" namespace "cv":
 
 # Convert from numpy to opencv
 # NOTE: these do not copy memory, but provide "views" onto the numpy data.
-cdef Mat* mat_from_array(np.ndarray array) except +
-cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except +
-cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except +
-cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except +
-cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except +
+cdef Mat* mat_from_array(np.ndarray array) except NULL
+cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except NULL
+cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except NULL
+cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except NULL
+cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL
 
 # Convert from opencv to numpy
 # NOTE: these *do* copy data, i.e., they assume OpenCV owns the memory buffer.
diff --git a/sumo-api/sumo/opencv/wrap.pyx b/sumo-api/sumo/opencv/wrap.pyx
index f3a735b..f2e79e5 100644
--- a/sumo-api/sumo/opencv/wrap.pyx
+++ b/sumo-api/sumo/opencv/wrap.pyx
@@ -12,7 +12,7 @@ from libc.string cimport memcpy
 from libc.stdint cimport uint16_t
 
 
-cdef Mat* mat_from_array(np.ndarray array):
+cdef Mat* mat_from_array(np.ndarray array) except NULL:
   """ Convert numpy array to generic OpenCV Mat.
       Keyword arguments:
           array -- numpy array, 3-channel uint8 or 1-channel uint8 or float32
@@ -40,7 +40,7 @@ cdef Mat* mat_from_array(np.ndarray array):
       raise ValueError('mat_from_array failed')
   return mat
 
-cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array):
+cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned char*>array.data != <unsigned char*>0
   cdef Mat1b* mat = new Mat1b(
       array.shape[0], array.shape[1], <unsigned char*>array.data, array.strides[0])
@@ -48,12 +48,12 @@ cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array):
       raise ValueError('mat1b_from_array failed')
   return mat
 
-cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array):
+cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned short*>array.data != <unsigned short*>0
   return new Mat1w(
       array.shape[0], array.shape[1], <unsigned short*>array.data, array.strides[0])
 
-cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array):
+cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned char*>array.data != <unsigned char*>0
   cdef Mat1f* mat = new Mat1f(
       array.shape[0], array.shape[1], <np.float32_t*>array.data, array.strides[0])
@@ -61,7 +61,7 @@ cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array):
       raise ValueError('mat1f_from_array failed')
   return mat
 
-cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array):
+cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL:
   assert <Vec3b*>array.data != <Vec3b*>0
   cdef Mat3b* mat = new Mat3b(
       array.shape[0], array.shape[1], <Vec3b*>array.data, array.strides[0])
-- 
2.43.0


From e711e1c5c1eb4bbf03b5f9868a191213740a22a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:27 +0000
Subject: [PATCH 44/51] fix: an image too wide for a point cloud raises an
 exception instead of ending the process

---
 sumo-api/sumo/images/rgbdci_360.pxd |  2 +-
 sumo-api/sumo/images/rgbdci_360.pyx | 21 ++++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/sumo-api/sumo/images/rgbdci_360.pxd b/sumo-api/sumo/images/rgbdci_360.pxd
index 41c53dc..8812ab6 100644
--- a/sumo-api/sumo/images/rgbdci_360.pxd
+++ b/sumo-api/sumo/images/rgbdci_360.pxd
@@ -16,4 +16,4 @@ from sumo.opencv.wrap cimport Mat3b, Mat1f
 cdef extern from "sumo/images/Rgbdci360.h" namespace "sumo":
   cdef CPointCloud* createPointCloud(const Mat3b& rgb,
                                      const Mat1f& range,
-                                     bool all_points);
+                                     bool all_points) except +
diff --git a/sumo-api/sumo/images/rgbdci_360.pyx b/sumo-api/sumo/images/rgbdci_360.pyx
index af95a19..ee8b3e3 100644
--- a/sumo-api/sumo/images/rgbdci_360.pyx
+++ b/sumo-api/sumo/images/rgbdci_360.pyx
@@ -142,16 +142,19 @@ cdef create_point_cloud_(np.ndarray[Uint8, ndim=3] rgb,
             all_points -- return a cloud with all points, invalid points are
                           0,0,0
     """
-    cdef Mat3b* rgb_cv = mat3b_from_array(rgb)
-    cdef Mat1f* range_cv = mat1f_from_array(range)
-
-    # Create PointCloud instance and take posession of C++ instance
+    cdef Mat3b* rgb_cv = NULL
+    cdef Mat1f* range_cv = NULL
     wrapper = <PointCloud>PointCloud.__new__(PointCloud)
-    wrapper._c_ptr = createPointCloud(rgb_cv[0], range_cv[0], all_points)
-
-    # De-allocate OpenCV objects, underlying memory remains with numpy
-    del range_cv
-    del rgb_cv
+    try:
+        rgb_cv = mat3b_from_array(rgb)
+        range_cv = mat1f_from_array(range)
+
+        # Create PointCloud instance and take posession of C++ instance
+        wrapper._c_ptr = createPointCloud(rgb_cv[0], range_cv[0], all_points)
+    finally:
+        # De-allocate OpenCV objects, underlying memory remains with numpy
+        del range_cv
+        del rgb_cv
 
     # Return python point cloud
     return wrapper
-- 
2.43.0


From aaf91ae405f44c3a1b9f8f40b83fba73d0f54ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:50 +0000
Subject: [PATCH 45/51] fix: arrays of the wrong shape or type are refused,
 instead of being silently read as empty

---
 sumo-api/sumo/base/vector.pxd          | 18 +++++++++---------
 sumo-api/sumo/base/vector.pyx          | 18 +++++++++---------
 sumo-api/sumo/threedee/mesh.pxd        |  2 +-
 sumo-api/sumo/threedee/mesh.pyx        |  2 +-
 sumo-api/sumo/threedee/point_cloud.pyx |  4 ++--
 5 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/sumo-api/sumo/base/vector.pxd b/sumo-api/sumo/base/vector.pxd
index 7d8d49d..5bc233e 100644
--- a/sumo-api/sumo/base/vector.pxd
+++ b/sumo-api/sumo/base/vector.pxd
@@ -69,34 +69,34 @@ cdef extern from "sumo/base/Vector.h" namespace "sumo":
 # declare conversions to and from numpy (defined in pyx):
 
 cdef array_from_matrix3(CMatrix3 mat)
-cdef CMatrix3 matrix3_of_array(np.ndarray input_a)
+cdef CMatrix3 matrix3_of_array(np.ndarray input_a) except *
 
 # Vector2
 
-cdef CVector2 vector2(np.ndarray[np.float32_t, ndim=2])
+cdef CVector2 vector2(np.ndarray[np.float32_t, ndim=2]) except *
 cdef np.ndarray[np.float32_t, ndim=2] array2(CVector2)
 
 # Vector2f
 
-cdef CVector2f vector2f(np.ndarray[np.float32_t, ndim=1] a)
+cdef CVector2f vector2f(np.ndarray[np.float32_t, ndim=1] a) except *
 cdef np.ndarray[np.float32_t, ndim=1] array2f(CVector2f v)
-cdef vector[CVector2f] vector2fs_of_array(np.ndarray[np.float32_t, ndim=2] points)
+cdef vector[CVector2f] vector2fs_of_array(np.ndarray[np.float32_t, ndim=2] points) except *
 cdef np.ndarray[np.float32_t, ndim=2] array_of_vector2fs(vector[CVector2f] points)
 
 # Vector3
 
-cdef CVector3 vector3(np.ndarray)
+cdef CVector3 vector3(np.ndarray) except *
 cdef np.ndarray array3(CVector3)
-cdef vector[CVector3] vector3s_of_array(np.ndarray)
+cdef vector[CVector3] vector3s_of_array(np.ndarray) except *
 cdef np.ndarray array_of_vector3s(vector[CVector3])
 
 # Vector3f
 
-cdef CVector3f vector3f(np.ndarray[np.float32_t, ndim=1] a)
+cdef CVector3f vector3f(np.ndarray[np.float32_t, ndim=1] a) except *
 cdef np.ndarray[np.float32_t, ndim=1] array3f(CVector3f v)
-cdef vector[CVector3f] vector3fs_of_array(np.ndarray[np.float32_t, ndim=2] points)
+cdef vector[CVector3f] vector3fs_of_array(np.ndarray[np.float32_t, ndim=2] points) except *
 cdef np.ndarray[np.float32_t, ndim=2] array_of_vector3fs(vector[CVector3f] points)
 
 # Vector4
-cdef CVector4 vector4(np.ndarray)
+cdef CVector4 vector4(np.ndarray) except *
 cdef np.ndarray array4(CVector4)
diff --git a/sumo-api/sumo/base/vector.pyx b/sumo-api/sumo/base/vector.pyx
index e5b7206..bce20ae 100644
--- a/sumo-api/sumo/base/vector.pyx
+++ b/sumo-api/sumo/base/vector.pyx
@@ -43,7 +43,7 @@ cpdef np.ndarray Matrix3(x, y, z):
 
 # Vector2 conversions
 
-cdef CVector2 vector2(np.ndarray a):
+cdef CVector2 vector2(np.ndarray a) except *:
   return CVector2(a[0],a[1])
 
 cdef np.ndarray array2(CVector2 v):
@@ -51,13 +51,13 @@ cdef np.ndarray array2(CVector2 v):
 
 # Vector2f conversions
 
-cdef CVector2f vector2f(np.ndarray a):
+cdef CVector2f vector2f(np.ndarray a) except *:
   return CVector2f(a[0],a[1])
 
 cdef np.ndarray array2f(CVector2f v):
   return np.array([v.x(), v.y()], dtype=np.float32)
 
-cdef vector[CVector2f] vector2fs_of_array(np.ndarray points):
+cdef vector[CVector2f] vector2fs_of_array(np.ndarray points) except *:
   assert points.shape[0] == 2
   cdef vector[CVector2f] cpp_points
   cdef CVector2f cpp_point
@@ -75,13 +75,13 @@ cdef np.ndarray array_of_vector2fs(vector[CVector2f] cpp_points):
 
 # Vector3 conversions
 
-cdef CVector3 vector3(np.ndarray a):
+cdef CVector3 vector3(np.ndarray a) except *:
   return CVector3(a[0],a[1],a[2])
 
 cdef np.ndarray array3(CVector3 v):
   return np.array([v.x(), v.y(), v.z()], dtype=np.float64)
 
-cdef vector[CVector3] vector3s_of_array(np.ndarray points):
+cdef vector[CVector3] vector3s_of_array(np.ndarray points) except *:
   assert points.shape[0] == 3
   cdef vector[CVector3] cpp_points
   cdef CVector3 cpp_point
@@ -99,13 +99,13 @@ cdef np.ndarray array_of_vector3s(vector[CVector3] cpp_points):
 
 # Vector3f conversions
 
-cdef CVector3f vector3f(np.ndarray a):
+cdef CVector3f vector3f(np.ndarray a) except *:
   return CVector3f(a[0],a[1],a[2])
 
 cdef np.ndarray array3f(CVector3f v):
   return np.array([v.x(), v.y(), v.z()], dtype=np.float32)
 
-cdef vector[CVector3f] vector3fs_of_array(np.ndarray points):
+cdef vector[CVector3f] vector3fs_of_array(np.ndarray points) except *:
   assert points.shape[0] == 3
   cdef vector[CVector3f] cpp_points
   cdef CVector3f cpp_point
@@ -123,7 +123,7 @@ cdef np.ndarray array_of_vector3fs(vector[CVector3f] cpp_points):
 
 # Vector4 conversions
 
-cdef CVector4 vector4(np.ndarray a):
+cdef CVector4 vector4(np.ndarray a) except *:
   return CVector4(a[0],a[1],a[2],a[3])
 
 cdef np.ndarray array4(CVector4 v):
@@ -162,7 +162,7 @@ cdef array_from_matrix3(CMatrix3 mat):
     memcpy(a.data, mat.data(), 9 * sizeof(np.double_t))
     return a
 
-cdef CMatrix3 matrix3_of_array(np.ndarray a):
+cdef CMatrix3 matrix3_of_array(np.ndarray a) except *:
     cdef CMatrix3 mat
     cdef np.ndarray[np.double_t, ndim=2] f = np.asfortranarray(a)
     memcpy(mat.data(), f.data, 9 * sizeof(np.double_t))
diff --git a/sumo-api/sumo/threedee/mesh.pxd b/sumo-api/sumo/threedee/mesh.pxd
index d21ef81..7005834 100644
--- a/sumo-api/sumo/threedee/mesh.pxd
+++ b/sumo-api/sumo/threedee/mesh.pxd
@@ -45,7 +45,7 @@ cdef class Mesh:
   cdef CMesh* _mesh
 
 # Utility functions. TODO: move to base?
-cdef vector[unsigned int] uint32s_of_array(np.ndarray indices)
+cdef vector[unsigned int] uint32s_of_array(np.ndarray indices) except *
 cdef np.ndarray array_of_uint32s(vector[unsigned int] indices)
 
 cdef Mesh_usurp(CMesh* mesh)
diff --git a/sumo-api/sumo/threedee/mesh.pyx b/sumo-api/sumo/threedee/mesh.pyx
index 609d92e..9b6b806 100644
--- a/sumo-api/sumo/threedee/mesh.pyx
+++ b/sumo-api/sumo/threedee/mesh.pyx
@@ -14,7 +14,7 @@ from sumo.opencv.wrap cimport (
     Mat3b, Mat1f, array_from_mat3b, mat3b_from_array, array_from_mat1f
 )
 
-cdef vector[unsigned int] uint32s_of_array(np.ndarray indices):
+cdef vector[unsigned int] uint32s_of_array(np.ndarray indices) except *:
   cdef vector[unsigned int] cpp_indices
   for i in range(indices.shape[0]):
     cpp_indices.push_back(<unsigned int>indices[i])
diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index 1281a4f..a8313c0 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -23,7 +23,7 @@ cdef np.ndarray numpy_of_color(CColor color):
   return np.array([color.r, color.g, color.b], dtype=np.uint8)
 
 # Convert single color from Python to C++
-cdef CColor color_of_numpy(np.ndarray color):
+cdef CColor color_of_numpy(np.ndarray color) except *:
   cdef CColor c
   c.r = color[0]
   c.g = color[1]
@@ -39,7 +39,7 @@ cdef np.ndarray array_of_colors(vector[CColor] colors):
   return result
 
 # Convert colors from Python to C++
-cdef vector[CColor] colors_of_array(np.ndarray colors):
+cdef vector[CColor] colors_of_array(np.ndarray colors) except *:
   cdef vector[CColor] cpp_colors
   cdef CColor cpp_color
   for i in range(colors.shape[1]):
-- 
2.43.0


From d12ed24352218893a23dc6d50e96bda95f03b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 46/51] fix: poses and boxes are written in full precision,
 whatever numpy's print options are

---
 sumo-api/sumo/base/vector.pyx     | 14 ++++++++++++++
 sumo-api/sumo/geometry/pose3.pyx  |  6 ++----
 sumo-api/sumo/geometry/rot3.pyx   |  5 +++--
 sumo-api/sumo/threedee/box_3d.pyx |  7 +++----
 4 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/sumo-api/sumo/base/vector.pyx b/sumo-api/sumo/base/vector.pyx
index bce20ae..b043ebf 100644
--- a/sumo-api/sumo/base/vector.pyx
+++ b/sumo-api/sumo/base/vector.pyx
@@ -12,6 +12,8 @@ Some utilities for small vectors.
     Below that we also define the conversion functions to/from Eigen.
 """
 
+import re
+
 import numpy as np
 cimport numpy as np
 from libc.string cimport memcpy
@@ -129,6 +131,18 @@ cdef CVector4 vector4(np.ndarray a) except *:
 cdef np.ndarray array4(CVector4 v):
   return np.array([v.x(), v.y(), v.z(), v.w()], dtype=np.float64)
 
+def vector_to_text(v):
+    """
+    Convert numpy vector <v> into its components, separated by commas.  The text
+    holds every component exactly, whatever numpy's print options are.
+    """
+    if v.dtype.kind == 'f':
+        v = v.astype(np.float64)
+    text = np.array2string(
+        v, separator=', ', floatmode='unique', suppress_small=False, sign='-',
+        threshold=v.size, max_line_width=10000, formatter={}, legacy=False)
+    return re.sub(r'[\[\]]', '', text)
+
 def unitize(v):
     """
     Convert numpy vector <v> into a unit vector and return.
diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index 7341c04..292ef11 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -10,10 +10,9 @@ Pose3: Rigid 3D transform modeled after GTSAM Pose3.
 cimport numpy as np
 import json
 import numpy as np
-import re
 import xml.etree.cElementTree as ET
 
-from sumo.base.vector import Vector3
+from sumo.base.vector import Vector3, vector_to_text
 from sumo.geometry.quaternion import Quaternion
 from sumo.geometry.rot3 import Rot3
 
@@ -209,8 +208,7 @@ class Pose3:
         pose_elem = ET.Element('pose')
 
         tr_elem = ET.SubElement(pose_elem, 'translation')
-        # regex to remove []
-        tr_elem.text = re.sub('[\[\]]', '', np.array2string(self.t, separator=', '))
+        tr_elem.text = vector_to_text(self.t)
 
         rot_elem = self.R.to_xml()
         pose_elem.append(rot_elem)
diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index 5970364..f3079be 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -11,9 +11,10 @@ Rot3: Rigid 3D transform modeled after GTSAM Rot3.
 import math
 import numpy as np
 cimport numpy as np
-import re
 import xml.etree.cElementTree as ET
 
+from sumo.base.vector import vector_to_text
+
 # Default camera rotation facing due north in ENU frame
 # see https://developers.google.com/streetview/spherical-metadata
 ENU_R_CAMERA = np.transpose(
@@ -192,7 +193,7 @@ class Rot3:
 
         for c in range(3):
             elem = ET.SubElement(base_elem, 'c' + str(c+1))
-            elem.text =  re.sub('[\[\]]', '', np.array2string(self.R[:,c], separator=', '))
+            elem.text = vector_to_text(self.R[:,c])
 
         return (base_elem)
 
diff --git a/sumo-api/sumo/threedee/box_3d.pyx b/sumo-api/sumo/threedee/box_3d.pyx
index 4be56ef..8e801d0 100644
--- a/sumo-api/sumo/threedee/box_3d.pyx
+++ b/sumo-api/sumo/threedee/box_3d.pyx
@@ -7,10 +7,9 @@ LICENSE file in the root directory of this source tree.
 
 import numpy as np
 import os
-import re
 import xml.etree.cElementTree as ET
 
-from sumo.base.vector import Vector3f
+from sumo.base.vector import Vector3f, vector_to_text
 from sumo.threedee.mesh import Mesh
 from sumo.threedee.textured_mesh import TexturedMesh
 
@@ -212,10 +211,10 @@ class Box3d(object):
         base_elem = ET.Element('box3d')
 
         c1_elem = ET.SubElement(base_elem, 'corner1')
-        c1_elem.text = re.sub('[\[\]]', '', np.array2string(self._min_corner, separator=', '))
+        c1_elem.text = vector_to_text(self._min_corner)
 
         c2_elem = ET.SubElement(base_elem, 'corner2')
-        c2_elem.text = re.sub('[\[\]]', '', np.array2string(self._max_corner, separator=', '))
+        c2_elem.text = vector_to_text(self._max_corner)
 
         return (base_elem)
 
-- 
2.43.0


From 0e7842a0b5c27e8a9cc0243dbd815ba559f9fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:09 +0000
Subject: [PATCH 47/51] fix: honour byteStride when reading glTF accessors

Vertex attributes of files from other writers are often interleaved; they
were read as if packed, which silently gave a wrong mesh.
---
 sumo-api/sumo/threedee/GltfModel.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index 0a25d70..284a0fa 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -195,7 +195,7 @@ class GltfModel : public tinygltf::Model {
 /**
  * Class for getting elements from buffers associated with an object.
  * Accesses scalar values only, and does no bounds checking on access.
- * TODO: fix that, and make working with strides.
+ * TODO: fix that.
  */
 template <class T>
 class GltfAccessor {
@@ -231,7 +231,7 @@ class GltfAccessor {
     if (j >= tinyAccessor_.count) {
       throw std::invalid_argument("GltfAccessor[]: invalid element index");
     }
-    return pointer_[j];
+    return *reinterpret_cast<const T*>(pointer_ + j * stride_);
   }
 
   // Return all elements in an STL vector
@@ -264,19 +264,33 @@ class GltfAccessor {
       throw std::invalid_argument("GltfAccessor: invalid buffer index");
     }
     const tinygltf::Buffer& buffer = object.buffers[view.buffer];
+    // Elements are packed unless the view says otherwise (interleaved data);
+    // vectors that are accessed as their scalar components always are
+    const int elementSize =
+        tinygltf::GetComponentSizeInBytes(tinyAccessor_.componentType) *
+        tinygltf::GetTypeSizeInBytes(tinyAccessor_.type);
+    const bool strided =
+        view.byteStride > 0 && elementSize == static_cast<int>(sizeof(T));
+    stride_ = strided ? view.byteStride : sizeof(T);
     const size_t available = buffer.data.size();
     if (view.byteOffset > available ||
-        tinyAccessor_.byteOffset > available - view.byteOffset ||
-        tinyAccessor_.count > (available - view.byteOffset -
-                               tinyAccessor_.byteOffset) / sizeof(T)) {
+        tinyAccessor_.byteOffset > available - view.byteOffset) {
       throw std::invalid_argument("GltfAccessor: elements exceed buffer");
     }
-    pointer_ = reinterpret_cast<const T*>(
-        buffer.data.data() + view.byteOffset + tinyAccessor_.byteOffset);
+    const size_t left =
+        available - view.byteOffset - tinyAccessor_.byteOffset;
+    if (tinyAccessor_.count > 0 &&
+        (left < sizeof(T) ||
+         tinyAccessor_.count - 1 > (left - sizeof(T)) / stride_)) {
+      throw std::invalid_argument("GltfAccessor: elements exceed buffer");
+    }
+    pointer_ =
+        buffer.data.data() + view.byteOffset + tinyAccessor_.byteOffset;
   }
 
   tinygltf::Accessor tinyAccessor_; // underlying tinygltf::Accessor
-  const T* pointer_; // pointer to associated memory
+  const unsigned char* pointer_; // pointer to associated memory
+  size_t stride_; // distance of elements in bytes
 };
 
 /**
-- 
2.43.0


From ca06a49e6b978f0b7d6abb3d83228a2e455a61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:07 +0000
Subject: [PATCH 48/51] fix: refuse glTF data of unsupported kinds instead of
 reading it wrongly

Triangle strips and fans, quantized attributes and sparse accessors were
read as lists of triangles and packed floats.
---
 sumo-api/sumo/threedee/GltfModel.cpp         | 23 ++++++++++++++++++++
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h |  7 ++++++
 2 files changed, 30 insertions(+)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 6f8cea0..a53e0ba 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -403,9 +403,29 @@ const tinygltf::Primitive& GltfModel::getPrimitiveMesh(
   throw runtime_error("GltfModel::getPrimitiveMesh: meshIndex out of bounds.");
 }
 
+// Throw if accessor does not hold vectors of floats of the given type, as for
+// example quantized attributes.
+static void
+checkFloatVectors(const GltfModel& model, size_t accessorIndex, int type) {
+  if (accessorIndex >= model.accessors.size()) {
+    throw invalid_argument("GltfModel: accessor index out of bounds.");
+  }
+  const tinygltf::Accessor& accessor = model.accessors[accessorIndex];
+  if (accessor.componentType != TINYGLTF_COMPONENT_TYPE_FLOAT ||
+      accessor.type != type) {
+    throw invalid_argument(
+        "GltfModel: unsupported type of vertex data, expected float vectors.");
+  }
+}
+
 void GltfModel::extractPrimitiveMesh(const size_t meshIndex, Mesh* mesh) const {
   const tinygltf::Primitive& primitive = this->getPrimitiveMesh(meshIndex);
 
+  if (primitive.mode != TINYGLTF_MODE_TRIANGLES) {
+    throw invalid_argument(
+        "GltfModel::extractPrimitiveMesh: only triangles are supported.");
+  }
+
   // Get indices
   int indicesAccessorIndex = primitive.indices;
   int component_type = getAccessorType(*this, indicesAccessorIndex);
@@ -430,10 +450,12 @@ void GltfModel::extractPrimitiveMesh(const size_t meshIndex, Mesh* mesh) const {
   }
   // Get vertices
   int vertexAccessorIndex = primitive.attributes.at("POSITION");
+  checkFloatVectors(*this, vertexAccessorIndex, TINYGLTF_TYPE_VEC3);
   auto vertexAccessor = getAccessor<Mesh::Vertex>(*this, vertexAccessorIndex);
   mesh->vertices_ = vertexAccessor.asVector();
   // Get normals
   int normalAccessorIndex = primitive.attributes.at("NORMAL");
+  checkFloatVectors(*this, normalAccessorIndex, TINYGLTF_TYPE_VEC3);
   auto normalAccessor = getAccessor<Mesh::Vertex>(*this, normalAccessorIndex);
   mesh->normals_ = normalAccessor.asVector();
 
@@ -463,6 +485,7 @@ void GltfModel::extractTexturedPrimitiveMesh(
         "GltfModel::extractTexturedMesh: Texture coordinates not found.");
   }
   int uvCoordAccessorIndex = primitive.attributes.at("TEXCOORD_0");
+  checkFloatVectors(*this, uvCoordAccessorIndex, TINYGLTF_TYPE_VEC2);
   auto uvCoordAccessor =
       getAccessor<TexturedMesh::UVCoord>(*this, uvCoordAccessorIndex);
   mesh->uvCoords_ = uvCoordAccessor.asVector();
diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index c8e8495..83dac4b 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -2508,6 +2508,13 @@ ParseBufferView(BufferView* bufferView, std::string* err, const json& o) {
 }
 
 static bool ParseAccessor(Accessor* accessor, std::string* err, const json& o) {
+  if (o.find("sparse") != o.end()) {
+    if (err) {
+      (*err) += "Sparse accessors are not supported.\n";
+    }
+    return false;
+  }
+
   double bufferView = -1.0;
   if (!ParseNumberProperty(
           &bufferView, err, o, "bufferView", true, "Accessor")) {
-- 
2.43.0


From 3c01d7b6efe77a78a3fa6aa5ae285fdf3ab98f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:42 +0000
Subject: [PATCH 49/51] fix: save scenes whose file lacks some of the settings

---
 sumo-api/sumo/semantic/project_scene.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index df77c34..a921bf2 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -93,16 +93,19 @@ class ProjectScene(object):
             "scene", attrib={"xmlns:sumo": "https://www.sumochallenge.org"}
         )
 
-        # version section
-        version = ET.SubElement(scene, "version")
-        version.text = self.settings["version"]
+        # version section (a loaded scene may lack any of the settings)
+        if "version" in self.settings:
+            version = ET.SubElement(scene, "version")
+            version.text = self.settings["version"]
 
         # categories section
         categories = ET.SubElement(scene, "categories")
-        categories_id = ET.SubElement(categories, "id")
-        categories_id.text = self.settings["categories_id"]
-        categories_url = ET.SubElement(categories, "url")
-        categories_url.text = self.settings["categories_url"]
+        if "categories_id" in self.settings:
+            categories_id = ET.SubElement(categories, "id")
+            categories_id.text = self.settings["categories_id"]
+        if "categories_url" in self.settings:
+            categories_url = ET.SubElement(categories, "url")
+            categories_url.text = self.settings["categories_url"]
 
         # project type
         project_type = ET.SubElement(scene, "project_type")
-- 
2.43.0


From d65cc093f438f5207823f5624b7fb1de13921d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:42 +0000
Subject: [PATCH 50/51] fix: refuse rotations whose columns do not have three
 numbers

---
 sumo-api/sumo/geometry/rot3.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index f3079be..d2606d0 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -173,7 +173,10 @@ class Rot3:
         R = np.zeros((3,3))
         for elem in base_elem:
             try:
-                R[:,col_lookup[elem.tag]] = np.fromstring(elem.text, sep=',')
+                column = np.fromstring(elem.text, sep=',')
+                if (column.size != 3):
+                    raise ValueError("column has {} numbers".format(column.size))
+                R[:,col_lookup[elem.tag]] = column
                 found[elem.tag] = True
             except:
                 raise ValueError("Expected c1, c2, or c3, but got {}".format(elem.tag))
-- 
2.43.0


From f2c107e458b9c707194989a39b5d6cc468a92eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:55 +0000
Subject: [PATCH 51/51] fix: Mesh.cube returned indices that were never set

---
 sumo-api/sumo/threedee/mesh.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sumo-api/sumo/threedee/mesh.pyx b/sumo-api/sumo/threedee/mesh.pyx
index 9b6b806..e236a4a 100644
--- a/sumo-api/sumo/threedee/mesh.pyx
+++ b/sumo-api/sumo/threedee/mesh.pyx
@@ -122,6 +122,9 @@ cdef class Mesh:
       # Create 2D mesh
       cdef size_t j = 0
       indices = np.empty((36,), dtype=np.uint32)
+      for i in range(6): # BACK, LEFT, FRONT, RIGHT, UP, DOWN
+        indices[i*6:i*6+6] = [j+0, j+1, j+2,  j+1, j+3, j+2]
+        j+=4
 
       # Create 3D mesh in OpenGL frame, Y is up, positive Z is back
       # Face order is BACK, LEFT, FRONT, RIGHT, UP, DOWN
-- 
2.43.0

