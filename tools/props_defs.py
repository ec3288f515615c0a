_DLT = ("The repository has no test for the download program; a test run would sample one schedule of the worker "
        "processes, one well-behaved server and no crash.")

prop("C01", "An archive counts as extracted only when all of it is extracted",
     "At every moment of every run of the dataset downloader, and after any crash, an archive that is recorded as "
     "extracted (its marker file in the .cache folder of the destination exists) has all its members in the "
     "destination with exactly the content they have in the archive. A complete archive is removed from the "
     "destination only after all its members are extracted.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "all interleavings of the pool's workers, all points at which the program or a worker is killed or interrupted, "
     "file-system errors (ENOSPC, EIO, EDQUOT, EMFILE, EACCES, torn writes), damaged archives, any number of re-runs",
     _DLT, [DL],
     [("unzip_one extracts, removes the archive, then writes the marker", DL + ":unzip_one"),
      ("unzip_files_in_parallel retries", DL + ":unzip_files_in_parallel")],
     ["file operations of all simulated processes", "directory contents at the end of each run"],
     [("marker", "<archive>.cache in <destination>/.cache means extracted", DL + ":get_zip_file_count")],
     technique="the program runs unmodified over a simulated process pool, server and file system; monitors after every file operation",
     note="Seeded search over schedules, crashes and faults; assumes the pool model is faithful to CPython's and that "
          "a kill stops all processes of the program. Damage that the zip format cannot detect is out of scope.")

prop("C02", "An incomplete transfer never ends up under an archive's final name",
     "Whenever a run of the dataset downloader has ended - normally, by a fault, by Ctrl-C or because it or its workers "
     "were killed - every file in the destination that has the name of a dataset archive is byte-for-byte a body that "
     "the server sent in full, even when a connection is cut without an error being reported.",
     ["schedules", "crash_points", "fault_sequences"],
     "all interleavings, kill points, silently cut, reset, stalled or refused connections, HTTP errors, missing "
     "lengths, write errors and short or torn writes",
     _DLT, [DL],
     [("download_one writes to a temporary name, compares lengths and renames", DL + ":download_one"),
      ("clean-up of partial downloads", DL + ":download_one")],
     ["directory contents at the end of each run"],
     technique="network and crash faults at chosen operations of simulated runs; directory compared with the bodies the simulated server sent",
     note="Seeded search; a transfer without a usable length cannot be verified and is only required to be complete when the body was complete.")

prop("C03", "Failures are recovered: retries and re-runs converge to the full dataset",
     "An archive that the server delivers correctly on its first, second or third request of a run is extracted by the "
     "end of that run, whatever happens to the other archives. After any history of interrupted or failed runs, at "
     "most two undisturbed runs leave every listed archive extracted and marked, no archive and no partial download "
     "behind, and the program never stops making progress on its own.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "any sequence of up to three disturbed runs (network, file system, kills, Ctrl-C) followed by undisturbed ones; "
     "1 to 27 archives, shared directories, any destination path",
     _DLT, [DL],
     [("MAX_RETRIES attempts over what is still missing", DL + ":download_zips_in_parallel"),
      ("state is re-read from disk before every attempt", DL + ":get_zip_file_count"),
      ("damaged archives are dropped", DL + ":unzip_one")],
     ["end state of each simulated run"],
     technique="liveness as bounded progress: disturbed runs followed by undisturbed ones, compared with the archives' contents",
     note="Seeded search; liveness is stated as: two undisturbed runs suffice.")

prop("C04", "Every archive is transferred once, and never again once it is there",
     "In a run without file-system faults each missing archive is requested until its first successful transfer and not "
     "more often, and never more than three times per run. An archive that is already extracted, or already complete in "
     "the destination, is not requested again, in this and in all later runs; no archive is transferred twice at the "
     "same time.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings, any pattern of network failures per archive and attempt, any earlier state of the destination, "
     "1 to 27 archives (the pool groups tasks beyond 12)",
     _DLT, [DL],
     [("remaining archives = listed - downloaded - extracted", DL + ":get_zip_file_count"),
      ("MAX_RETRIES", DL + ":download_zips_in_parallel")],
     ["requests seen by the simulated server"],
     technique="exactly-once accounting of the requests a simulated server sees under seeded schedules and network failures",
     note="Seeded search; archives whose transfer succeeds but whose content is damaged may be requested up to three times.")

prop("C05", "The downloader touches only its own files and limits its load",
     "Whatever the schedule and the faults, the downloader never has more than three archive transfers in progress, and "
     "writes only below the destination folder, even for archives whose member names point elsewhere. Files that were "
     "in or next to the destination and do not belong to the dataset - including the user's own zip files - are neither "
     "changed nor removed.",
     ["schedules", "inputs", "fault_sequences"],
     "user files of all kinds in the destination, hostile member names (.., absolute), destinations that are relative, "
     "absolute, nested, with blanks, dots or glob characters, all interleavings and faults",
     _DLT, [DL],
     [("MAX_CORES", DL), ("only listed archives are considered", DL + ":get_zip_file_count"),
      ("extraction sanitises member names", DL + ":unzip_one")],
     ["path of every file operation", "contents of all user files after each run", "transfers in progress"],
     technique="every path a simulated run opens, writes, renames or removes is judged; user files compared after each run",
     note="Seeded search. Escaping operations are refused by the simulator, so the real file system is not touched.")

prop("C06", "Ctrl-C stops the download promptly and leaves a state that can be resumed",
     "When the user interrupts the program, at any point and with any transfers in progress or stalled, it ends "
     "without hanging and without an unhandled error, starts no further downloads or extractions, and leaves no "
     "workers behind. A later run resumes from what is there.",
     ["schedules", "crash_points"],
     "an interrupt delivered to the main process or to the whole process group at every kind of operation, with "
     "stalled and slow transfers, retries in progress and killed workers",
     _DLT, [DL],
     [("KeyboardInterrupt handlers terminate and join the pool", DL + ":download_zips_in_parallel"),
      ("the same while extracting", DL + ":unzip_files_in_parallel"), ("interrupted transfers are cleaned up", DL + ":download_one")],
     ["main program's exit", "pools and requests started after the interrupt"],
     technique="interrupts injected at chosen operations of simulated runs; bounded-steps exit and resumability",
     note="Seeded search; interrupts are delivered at operations (system calls, pool and network operations), not between arbitrary bytecodes.")

prop("C07", "Nothing is downloaded without enough space or a valid configuration",
     "If the destination has less free space available to the user than 6 GB per archive that is still missing plus "
     "10 GB, or if the list of archives cannot be read from the server, the program ends without requesting, changing "
     "or removing any archive. Otherwise it proceeds.",
     ["inputs", "histories", "fault_sequences"],
     "free space at, one byte below, one byte above and far from the limit; any earlier state of the destination; "
     "configuration request failing with any status, connection error or invalid content",
     _DLT, [DL],
     [("calculate_disk_space_needed", DL), ("read_config", DL)],
     ["requests seen by the simulated server", "destination before and after"],
     technique="simulated free space and configuration server around the threshold",
     note="Seeded search over free space and initial states.")

# ------------------------------------------------------------------ storage
SC = "sumo-api/sumo/semantic/project_scene.py"
PO = "sumo-api/sumo/semantic/project_object.py"
PD = "sumo-api/sumo/semantic/project_object_dict.py"
PC = "sumo-api/sumo/semantic/project_converter.py"
GM = "sumo-api/sumo/threedee/gltf_model.pyx"
GC = "sumo-api/sumo/threedee/GltfModel.cpp"
TG = "sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h"
GB = "sumo-api/sumo/threedee/glb_converter.pyx"
VG = "sumo-api/sumo/threedee/voxel_grid.py"
_ST = ("The tests save and load a few fixed scenes once, in one process, on a disk that never fails; they cannot cover "
       "all scenes, histories and fault positions.")
_SEAM = "the real code runs in forked process lives whose file system calls all pass a seccomp seam; "

prop("C08", "A scene survives any history of saving, loading, editing and converting",
     "When a scene is saved and loaded again - in the same or in a later process, any number of times, with edits, "
     "transforms, conversions and other scenes in between - the loaded scene equals the saved one: project type, "
     "settings and for every element its id, category, symmetry, score, evaluated flag, pose, bounds and complete shape. "
     "Saving a scene into a new folder and loading what was saved always succeed, also when the system transfers "
     "data in small pieces, and operations on one scene never change another.",
     ["inputs", "histories", "fault_sequences"],
     "histories of up to three process lives and some twenty operations over generated scenes of all three types, names, "
     "folders and working directories; short reads and writes",
     _ST, [SC, PO, PD, PC, GM, GC, TG, VG],
     [("save writes the elements, then the xml", SC + ":ProjectScene.save"), ("load", SC + ":ProjectScene.load"),
      ("element xml", PO + ":ProjectObject._to_xml"), ("transform_pose copies", SC), ("conversions", PC)],
     ["return values of ProjectScene.load", "scenes in memory after every operation"],
     technique=_SEAM + "histories compared step by step with an executable reference model built from raw arrays",
     note="Seeded search over histories; numbers in the scene xml are compared to nine digits, whatever the print options of numpy are.")

prop("C09", "No I/O error while a scene is saved loses data silently",
     "If saving a scene returns without an exception, the complete scene can be loaded, whatever errors, short or torn "
     "writes or lack of space the disk reported meanwhile. Otherwise the save raises a documented exception, and "
     "loading that name later raises or gives the complete scene; never a part of it.",
     ["fault_sequences", "inputs"],
     "every file system call of a save failing once or from then on with ENOSPC, EIO, EDQUOT, EMFILE, EACCES, EROFS, "
     "ENOMEM or EFBIG, torn and short writes at any byte, a disk with any number of free bytes; all scene types",
     _ST, [SC, PO, GM, GC, TG, GB, VG],
     [("order of writes", SC + ":ProjectScene.save"), ("glb writing", GM + ":GltfModel.save_as_glb"),
      ("voxel writing", VG + ":VoxelGrid.save")],
     ["outcome of ProjectScene.save", "outcome of a later, undisturbed ProjectScene.load"],
     technique=_SEAM + "errors, torn writes and full disks at seeded positions of saves; later lives read back",
     note="Seeded search over fault positions; errors reported only by close() and power loss are not counted.")

RT = "sumo-api/sumo/images/RgbdTiff.cpp"
RP = "sumo-api/sumo/images/rgbd_tiff.pyx"
MT = "sumo-api/sumo/images/multi_image_tiff.pyx"
PL = "sumo-api/sumo/threedee/point_cloud_ply_c.cpp"
PY = "sumo-api/sumo/threedee/point_cloud.pyx"
_FT = ("The tests read and write a few small fixed files once in one process on a disk that never fails; no test crosses "
       "formats, folders, edits, faults and restarts.")

prop("C10", "Models survive every way through glTF and GLB files",
     "A model that is written as glTF or GLB, or converted from glTF to GLB, without an exception gives back the same "
     "meshes (indices, vertices, normals, texture coordinates, textures, colours) and materials when the file is read "
     "according to the glTF specification, by load_from_gltf / load_from_glb, in this or any later process - whatever "
     "edits, copies, other models, I/O faults or crashes came before, whatever the folder is called, and also for valid "
     "glTF files made by others; what such a file holds that is not supported (strips, quantized attributes, sparse accessors) "
     "raises. Damaged or partly written files raise an exception or give the complete model; they never "
     "give another one and never end the process. Models in memory and other models' files are not changed.",
     ["inputs", "histories", "fault_sequences", "crash_points"],
     "histories of up to three process lives over generated models: own and foreign glTF (8/16/32-bit indices, up to 66 000 vertices, "
     "several buffers, interleaved and shared views, data URIs, GLB, node trees, scenes, missing optional parts, primitives and shared "
     "textures, alpha channels), added meshes, extracted meshes, deep copies, colours, material "
     "updates, saves over existing files, conversions; every file system call failing, cut short or fatal; damage between lives",
     _FT, [GM, GC, TG, GB],
     [("writing glTF and images", GM + ":GltfModel.save_as_gltf"), ("GLB by way of a temporary folder", GM + ":GltfModel.save_as_glb"),
      ("packing", GB + ":gltf2glb"), ("parser and range checks", TG), ("accessors", GC)],
     ["files read by an independent glTF/GLB reader", "models returned by the loaders", "models in memory after every operation"],
     technique=_SEAM + "histories compared with a reference model of raw arrays, by an independent reader and by the real loaders",
     note="Seeded search. Two models with different names in one folder share image files (listed as a known finding); gray "
          "images, JPG, sub-folders of images and models without meshes are not generated.")

prop("C11", "RGB-D images survive TIFF files, and damaged ones are reported",
     "A multi-page image that is saved without an exception - through rgbd_tiff, Rgbd360, Rgbdci360 or MultiImageTiff, with "
     "any near plane - is read back by any later process with identical colour, category and instance pages and with depth "
     "exact to the 16-bit inverse quantisation, whatever I/O faults occurred. A save that cannot be completed raises. Files "
     "that are damaged, replaced, partly written or unreadable raise or give complete, correct pages; they never give wrong "
     "pixels and never end the process. The image that is saved is not changed.",
     ["inputs", "fault_sequences", "crash_points", "histories"],
     "images from 1x1 to 130x257 of all page combinations, depths including 0, infinity and beyond the near plane, inverse depth "
     "pages, re-saving of loaded images with other near planes; every file system call failing, cut short or fatal; damage between lives",
     _FT, [RT, RP, MT, "sumo-api/sumo/images/rgbd_360.pyx", "sumo-api/sumo/images/rgbdci_360.pyx", "sumo-api/sumo/geometry/inverse_depth.pyx"],
     [("pages and metadata", RT + ":writeRgbdTiff"), ("reading and checks", RT + ":readRgbdTiff"), ("conversion", RP + ":load")],
     ["files read by an independent TIFF reader", "images returned by the loaders"],
     technique=_SEAM + "histories compared with raw arrays, by an independent TIFF reader and by the real loaders",
     note="Seeded search. After a failed save or damage, a file with fewer, but complete and correct pages is accepted; 8-bit "
          "legacy depth files are not generated.")

prop("C12", "Point clouds and voxel grids survive their files, faults and restarts",
     "A point cloud written as PLY or text, and a voxel grid written as HDF5, without an exception hold exactly the points "
     "(and colours) or occupied voxels, size and corner that were in memory, and load again in any later process. Saves that "
     "cannot be completed raise; damaged or partly written files raise on loading or give the complete content, never "
     "something else, and never end the process. A failed load into an existing grid leaves it as it was; points below the "
     "grid's corner are refused without effect.",
     ["inputs", "fault_sequences", "crash_points", "histories"],
     "clouds of 1 to 3000 points of any scale, colored or not, appended to; grids grown in any order and loaded into each other; "
     "every file system call failing, cut short or fatal; damage between lives",
     _FT, [PY, PL, "sumo-api/sumo/threedee/tinyply/tinyply.cpp", VG],
     [("ply", PL + ":writePoints"), ("text", PY + ":PointCloud.save"), ("voxels", VG + ":VoxelGrid.save"), ("loading", VG + ":VoxelGrid.load")],
     ["files read by independent PLY, text and HDF5 readers", "objects returned by the loaders", "objects in memory"],
     technique=_SEAM + "histories compared with raw arrays, by independent readers and by the real loaders",
     note="Seeded search. PLY files keep 32-bit coordinates, and load_ply returns points without colours (as documented).")

prop("C13", "A crash while a scene is saved never leaves a scene that loads incompletely",
     "When the process dies at any moment of saving a scene, a later load of that name either raises a documented "
     "exception or returns the complete scene. All scenes saved before are unchanged, the name counts as taken, and "
     "saving under another name works.",
     ["crash_points", "histories", "inputs"],
     "a kill at any file system call of a save, or in the middle of any write at any byte; up to two crashes per history; "
     "all scene types",
     _ST, [SC, GM, GC, TG, VG],
     [("the xml file is written last", SC + ":ProjectScene.save"), ("existing folders are refused", SC + ":ProjectScene.save")],
     ["files left by the dead process", "outcome of load and save in the next process"],
     technique=_SEAM + "process killed at seeded calls and bytes; the next lives are judged against the reference model",
     note="Seeded search over crash points; only the effects of completed system calls survive, unsynced pages are not lost.")

prop("C14", "An existing scene is never overwritten, and failures stay local",
     "Saving under a name that exists - as a scene, a failed or crashed save, or any other file - fails and changes "
     "nothing there. A save or load that fails or crashes changes no other scene on disk, no scene in memory and not "
     "the one being saved, and the process can go on saving and loading.",
     ["histories", "fault_sequences", "crash_points"],
     "histories that reuse names, occupied names (file, folder, dangling link), failing and crashing saves and loads in between",
     _ST, [SC, PO, GM, VG],
     [("refusal of existing targets", SC + ":ProjectScene.save")],
     ["directory tree before and after every process life", "all scenes in memory after every operation"],
     technique=_SEAM + "directory trees and memory compared with the reference model after every operation",
     note="Seeded search over histories.")

prop("C15", "Damaged or unreadable scenes are reported, never half loaded or fatal",
     "Loading a scene with missing, empty, truncated, replaced or unreadable files raises an exception of the kinds "
     "documented (I/O, value or runtime error). It never returns data that differs from what was saved, and never "
     "crashes or blocks the process.",
     ["fault_sequences", "inputs"],
     "truncation at any byte, loss, replacement by other content, zeroing, a folder or dangling link in place of any file "
     "of a scene, missing xml parts, read errors at any call",
     _ST, [SC, PO, GM, GC, TG, VG],
     [("validation of the xml", PO + ":ProjectObject._parse_xml"), ("validation of glTF", TG), ("voxel reading", VG + ":VoxelGrid.load")],
     ["outcome of ProjectScene.load", "end of the process"],
     technique=_SEAM + "damage between process lives and failing reads at seeded positions",
     note="Seeded search over damage and fault positions; flipped bits are excluded because the formats have no checksums.")

prop("C16", "Saving and loading leave nothing behind, even when they fail",
     "After every save, load or conversion of a scene, model, image, point cloud or voxel grid, successful or not, the working "
     "directory of the process is what it was, no temporary files or folders remain, no file is left open, and nothing was "
     "written but the files of the target.",
     ["fault_sequences", "histories"],
     "errors at any file system call of saves, loads and conversions of all scene types and file formats, relative and absolute "
     "folders, any working directory",
     _ST, [SC, GM, GB, GC, VG, RT, PL],
     [("temporary folder of the glb writer", GM + ":GltfModel.save_as_glb"), ("gltf to glb", GB)],
     ["working directory", "temporary folder", "open descriptors", "directory tree"],
     technique=_SEAM + "process state compared before and after every operation under seeded faults",
     note="Seeded search; when the clean-up's own calls are made to fail, remaining temporary files are accepted.")

EV = "sumo-api/sumo/metrics/evaluator.py"
BB = "sumo-api/sumo/metrics/bb_evaluator.py"
ME = "sumo-api/sumo/metrics/mesh_evaluator.py"
VE = "sumo-api/sumo/metrics/voxel_evaluator.py"
MU = "sumo-api/sumo/metrics/utils.py"
EO = "tools/evaluate-one.py"

prop("C17", "An evaluation reports the documented scores of exactly the two given scenes",
     "Evaluating a submission against a ground truth gives the metrics defined in the code's documentation and the white paper "
     "(shape, rotation, translation, semantics, perceptual, RMS point and color) for the scenes as they are: whatever was "
     "evaluated before or is evaluated in between, in whatever order elements and metrics are asked for, for every random "
     "stream, in memory or loaded. It leaves both scenes unchanged and does not fail for valid scenes; the evaluation program "
     "prints the same scores and never prints any for a scene it could not read completely.",
     ["histories", "inputs", "fault_sequences", "schedules"],
     "histories over several process lives of up to eight evaluations of bounding box, voxel and mesh scenes with edits and "
     "restarts in between; two evaluators kept and asked again; seeded random streams; read errors, short reads and damaged files "
     "under the program",
     "The evaluator tests are not part of the suite that runs here, and they check single numbers on one sample scene; none "
     "evaluates twice, edits in between, varies the random stream or fails a read.",
     [EV, BB, ME, VE, MU, EO],
     [("association and scores", EV + ":Evaluator._compute_agnostic_data_assoc"), ("average precision", MU + ":compute_auc_ap"),
      ("sampled surfaces", ME + ":MeshEvaluator.__init__"), ("the program", EO + ":main")],
     ["metrics returned", "scores printed", "both scenes after every operation", "temporary files and descriptors"],
     technique="deterministic simulation: whole process lives run with every random stream seeded and every file system call under a "
     "fault-injecting seam; metrics compared with an independent reference model of the white paper",
     note="Seeded search. pymesh is not installed: intersections of boxes come from a half-space stub that trusts the vertices; cases "
     "within rounding of a threshold, ties and gimbal lock are not judged; mesh similarities are decided only for near-identical or "
     "disjoint objects.")

MS = "sumo-api/sumo/threedee/model_sampler.pyx"
VO = "sumo-api/sumo/threedee/voxelizer.pyx"
PC = "sumo-api/sumo/threedee/point_cloud.pyx"

prop("C18", "Sampling and voxelizing cover exactly the model's surface, for every random stream",
     "Whatever the random stream: sampling a model gives per face as many points as the density and the face's area ask for (at least one), "
     "every point lies on its face and has the color of the texture at its texture coordinates, and points of a uniform stream are "
     "spread evenly over the face. Voxelizing a model gives voxels that touch the surface and leave no face uncovered, with colors of the "
     "model; thinning a point cloud keeps points of it with their own colors. The mesh evaluator samples the same way. The inputs are "
     "left unchanged, equal streams give equal results, and models without faces give nothing.",
     ["schedules", "inputs", "histories"],
     "random streams (uniform, constant, extreme, repeated values) under models of one to several meshes, textured or not, textures of "
     "any size including none, coordinates outside [0, 1], any scale and density; several operations on one model in one process",
     "The tests sample two cubes with one stream and check counts and bounds, not where points lie, their colors or other streams.",
     [MS, VO, VG, ME, PC],
     [("points of a face", MS), ("voxels of a model", VO), ("sampling for the evaluator", ME + ":sample_element"), ("thinning", PC)],
     ["points and colors returned", "voxels returned", "the model before and after"],
     technique="deterministic simulation: every random source of the process is replaced by a seeded or adversarial stream; results "
     "checked against an independent geometric reference model",
     note="Seeded search over streams and inputs. Nothing here does I/O, so the only injected faults are random streams.")

prop("C19", "Processes that share a folder never see or destroy each other's half-finished work",
     "When several processes save, load and convert scenes below the same folder at the same time, in any interleaving: of the processes "
     "that save under one name exactly one succeeds, every other is refused with an exception and changes nothing of the "
     "winner's scene; a load gives the complete scene of one of them or raises, and succeeds once that save has returned; "
     "saves under different names, also into new folders that both create, and the temporary files of conversions do not "
     "disturb each other; nothing temporary is left behind.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "two or three processes, each with up to four operations on scenes of every type with colliding and distinct names, interleaved at "
     "every file system call in seeded slices; the same temporary names in every process; some with a process killed or an I/O "
     "error in one of them",
     "Every test runs alone in its process and folder; which of two saves wins depends on what happens between two system calls.",
     [SC, PO, PD, GM, GB, VG],
     [("creation of the project folder", SC + ":save"), ("xml written last", SC + ":save"), ("temporary folders", GB)],
     ["returned value or exception of every save and load", "files of a scene", "temporary folder"],
     technique="forked processes behind a system-call seam with a gate before every call; a seeded scheduler grants calls",
     note="Seeded search. Processes of one machine, whose file system calls are atomic one by one; threads are out of scope.")

MH, MHC = "sumo-api/sumo/threedee/mesh.pyx", "sumo-api/sumo/threedee/Mesh.cpp"
TM, TMC = "sumo-api/sumo/threedee/textured_mesh.pyx", "sumo-api/sumo/threedee/TexturedMesh.cpp"
GX, GXC = "sumo-api/sumo/threedee/gltf_model.pyx", "sumo-api/sumo/threedee/GltfModel.cpp"

prop("C20", "Meshes, models, point clouds and boxes are values of their own through any history of operations and lifetimes",
     "Whatever is done with meshes, textured meshes, models, point clouds and boxes in memory, in whatever order and whichever of them "
     "are released in between, every object holds exactly the data its own history of operations gives it: building, merging (also "
     "with itself), replacing, renumbering, transforming, cleaning up, coloring, adding to and taking from a model, copying, building cubes, taking over "
     "Open3D meshes, joining and registering clouds, and bounding boxes (and what they say of themselves) have their documented results, and change no other object. Overwriting an array "
     "that was passed in or returned (other than the read-only corners of a box) changes no object. Inputs that an operation refuses raise and change nothing; "
     "colored and uncolored points never become one cloud. Nothing ends the process or reads released memory.",
     ["histories", "inputs", "schedules"],
     "histories of six to 33 operations (38 kinds) on up to six living objects of five kinds, sharing, aliasing and releasing them; arrays of any "
     "layout, sizes from empty; freed and fresh memory filled with a byte of the seed; arguments overwritten after the call and returned "
     "arrays overwritten by the caller",
     "The tests call every operation once on a fresh object and look at the object it was called on; a dangling or shared buffer, or "
     "an alias, shows only in a later operation on another object.",
     [MH, MHC, TM, TMC, GX, GXC, PC, "sumo-api/sumo/threedee/PointCloud.h", "sumo-api/sumo/threedee/box_3d.pyx", "sumo-api/sumo/threedee/compute_bbox.pyx"],
     [("merging and replacing", MHC), ("textured meshes", TMC), ("meshes of a model", GXC), ("joining point clouds", PC)],
     ["all data of every living object after every operation", "exceptions", "end of the process"],
     technique="deterministic simulation of object lifetimes: seeded histories under an allocator that overwrites freed memory, every "
     "object compared with a reference model of plain arrays after every operation",
     note="Seeded search. No I/O, clock or second party takes part: the nondeterminism is memory contents and order of destruction.")

I = "sumo-api/sumo/images/"
G = "sumo-api/sumo/geometry/"
prop("C21", "Poses, 360-degree images and color tables are values of their own through any history of operations",
     "A pose is the rigid motion its own history gives it: built with or without arguments (the default is the identity, every time), "
     "as a camera, from a matrix or columns, composed, inverted, written as XML, JSON or quaternion and read back, or shifted in place, "
     "it maps points to and from its frame accordingly, and shifting one pose moves no other pose that has arrays of its own. The point "
     "cloud of an RGBD 360 image has exactly one point, at its range along the ray of its cube-map pixel and with its color, for every "
     "pixel with a valid range (with all_points, the origin for the others); it belongs to no image afterwards. Depth and inverse depth "
     "convert into each other by the documented formula, for any near plane. A color table gives every category id and name of its "
     "file the color of its row and raises KeyError (IndexError for images) for all others; a file that cannot be read in full raises and never "
     "yields part of a table. Images of the wrong size or layout raise, and nothing ends the process.",
     ["histories", "inputs", "faults", "schedules"],
     "histories of six to 29 operations on up to six living objects; poses made in ten ways; images from empty to 7 x 42 pixels with "
     "zero, negative, infinite, NaN and extreme ranges, in four memory layouts, of right and wrong size; tables of 1 to 700 rows read under "
     "read errors, short reads and interrupted calls; freed and fresh memory filled with a byte of the seed",
     "The tests construct each object once, with C-contiguous arrays of fitting size, and never edit one object and look at another; "
     "no test makes a read fail.",
     [G + "pose3.pyx", G + "rot3.pyx", G + "quaternion.pyx", G + "inverse_depth.pyx", I + "rgbd_360.pyx", I + "rgbdci_360.pyx",
      I + "Rgbdci360.cpp", "sumo-api/sumo/base/colored_category.pyx", "sumo-api/sumo/base/vector.pyx", "sumo-api/sumo/opencv/wrap.pyx"],
     [("poses", G + "pose3.pyx"), ("rotations", G + "rot3.pyx"), ("point cloud of an image", I + "Rgbdci360.cpp"),
      ("inverse depth", G + "inverse_depth.pyx"), ("color tables", "sumo-api/sumo/base/colored_category.pyx")],
     ["all data of every living object after every operation", "results", "exceptions", "end of the process"],
     technique="deterministic simulation of object lifetimes and of the reading of tables: seeded histories under an allocator that "
     "overwrites freed memory and a file system seam that injects read faults; every object compared with a reference model after every operation",
     note="Seeded search. Poses keep the arrays they are given; aliasing through those is not judged. Negative and NaN depths are not encoded.")

prop("C22", "Scenes written by other programs in the documented format mean what they say",
     "A scene of the documented format (docstrings of ProjectScene.save and of the from_xml functions) that another program wrote loads "
     "with exactly the settings and elements it states, in whatever legal way it is written: any XML encoding, "
     "white space, comments, processing instructions, CDATA and character references, tags in any order, unknown tags in the scene or an element (which are "
     "ignored), numbers in any notation, tags left out (which mean the documented default), True or true, corners in either order, GLB "
     "files of any layout, HDF5 files of any storage. It can then be edited, converted, saved and loaded like any other scene. A document that breaks the "
     "format - a missing id, file, column or corner, a wrong count of numbers, an impossible symmetry, an unknown project type - is refused "
     "with a documented exception. Neither depends on short reads; read errors raise.",
     ["inputs", "histories", "fault_sequences"],
     "up to three process lives, before each of which another program writes up to two scenes of up to six elements in a seeded form (eight "
     "encodings, five indentations, number notations, omitted tags, 18 ways to break the format); loads with errors and short reads, edits, conversions and saves of what was loaded",
     "The tests read files that this code wrote itself, or one hand-written document each; they never load what they did not write and save it again.",
     [SC, PO, PD, "sumo-api/sumo/semantic/object_symmetry.py", "sumo-api/sumo/geometry/pose3.pyx", "sumo-api/sumo/geometry/rot3.pyx",
      "sumo-api/sumo/threedee/box_3d.pyx", VG, GM],
     [("scene document", SC + ":load"), ("element", PO + ":_parse_xml"), ("pose", "sumo-api/sumo/geometry/pose3.pyx:from_xml"),
      ("rotation", "sumo-api/sumo/geometry/rot3.pyx:from_xml"), ("bounds", "sumo-api/sumo/threedee/box_3d.pyx:from_xml"),
      ("symmetry", "sumo-api/sumo/semantic/object_symmetry.py:from_xml")],
     ["scene returned by load", "exceptions", "scenes in memory and files after every later operation"],
     technique="deterministic simulation of process lives over a shared folder with a second party, a simulated other program that writes "
     "scenes; read faults at a system-call seam; loaded scenes compared with what was stated",
     note="Seeded search. Default namespaces, duplicate ids and numbers followed by other text are not generated.")
