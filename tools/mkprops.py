#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
PC="gradslam/structures/pointclouds.py"; RGBD="gradslam/structures/rgbdimages.py"; SU="gradslam/structures/structutils.py"
UT="gradslam/structures/utils.py"; FU="gradslam/slam/fusionutils.py"; SLAM="gradslam/slam/icpslam.py"; PF="gradslam/slam/pointfusion.py"
ICPU="gradslam/odometry/icputils.py"; ICP="gradslam/odometry/icp.py"; GICP="gradslam/odometry/gradicp.py"; GT="gradslam/odometry/groundtruth.py"
GEO="gradslam/geometry/geometryutils.py"; PROJ="gradslam/geometry/projutils.py"; SE3="gradslam/geometry/se3utils.py"
CFG="gradslam/config/cfgnode.py"; DU="gradslam/datasets/datautils.py"; ICL="gradslam/datasets/icl.py"; TUM="gradslam/datasets/tum.py"; TU="gradslam/datasets/tumutils.py"; SC="gradslam/datasets/scannet.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(obs),hook_needed=None)))

p("P01","A point cloud batch's list view and padded view always describe the same data",
 "After any sequence of public operations on a point cloud batch (construction, in-place arithmetic, rigid transforms, projection, replacing an attribute in list or padded form, appending, copying, moving), the list form and the padded form of every attribute (points, normals, colors, features) denote the same values, and the reported presence flags, counts and validity mask agree with them. Replacing an attribute through one form must be visible through the other.",
 ["histories","inputs"],"all interleavings of the mutating and reading operations of the point cloud class, from every combination of present attributes and of which form is currently materialised",
 "The tests read one form right after one operation; staleness needs a particular order (read padded, set list, read padded) for a particular attribute, and the number of such histories is unbounded.",
 [PC,SU],[("dual representation with lazily recomputed partner","Pointclouds property getters/setters and _compute_padded"),("in-place operators reset the partner form","offset_, scale_, rotate_, pinhole_projection_, append_points")],
 [("list form / padded form","two caches of the same attribute",PC),("validity mask, counts, presence flags","derived metadata",PC)],["points_list/points_padded and the normals/colors/features analogues","has_* properties"])
p("P02","Padding rows of a point cloud batch are always zero and never become points",
 "In the padded form, every entry past a cloud's point count is zero for every attribute, after any sequence of public operations; offsets, projections and other non-linear updates never leak into padding. The validity mask is true exactly for the first count rows of each cloud.",
 ["histories","inputs"],"all ragged batches and all sequences of in-place operations, setters and appends",
 "A padding leak is only visible for ragged batches after an operation that maps zero to non-zero; tests sample a few equal-size or single-operation cases.",
 [PC,SU],[("mask multiplication after operations that do not fix zero","offset_, scale_, pinhole_projection_"),("zero pad value","list_to_padded"),("setter guard","_assert_set_padded")],
 [("validity mask","true on real points",PC)],["points_padded","nonpad_mask"])
p("P03","Copying, moving or detaching a point cloud batch loses nothing",
 "clone, detach, moving to a device, and the out-of-place arithmetic and transform operators return a batch with the same attributes, counts, raggedness, presence flags and values as the source (up to the operation's own effect), whichever internal form the source currently holds. A detached copy carries no gradient history in any attribute, and a moved copy lies wholly on the requested device.",
 ["histories","inputs"],"all reachable internal states of the source (list only, padded only, both, mixed per attribute) and all attribute subsets",
 "The loss needs a source whose state was produced by a particular earlier operation (for example in-place update, then copy of a ragged batch); tests copy freshly constructed batches.",
 [PC],[("copy loop over an explicit table of internal tensors","clone, detach, to"),("operators built on clone","__add__, __sub__, __mul__, __truediv__, __matmul__, rotate, transform, pinhole_projection")],
 [("table of internal tensors","which cached tensors a copy carries",PC)],["clone()","detach()","to()"])
p("P04","Out-of-place point cloud operations neither change nor alias their source",
 "An out-of-place operation on point clouds (operators, rotate, transform, projection, clone, detach, requested copies on device moves) leaves the source batch and the caller's tensors unchanged, and the result shares no mutable state with the source, so that later in-place updates of one are invisible in the other. An in-place operation returns the very object it was called on.",
 ["histories","inputs"],"all out-of-place operations, followed by any in-place update of either side",
 "Aliasing is invisible until a second operation mutates one side; tests compare values directly after the call.",
 [PC],[("clone before in-place update","Pointclouds operators"),("tensor clone in clone/setters/append","Pointclouds.clone, setters, append_points")],(),["source batch after the call"])
p("P05","Appending point clouds extends every attribute in lockstep, old points first",
 "Appending batch B to batch A makes each cloud of A consist of A's points followed by B's, with normals, colors and features concatenated in the same order along the point dimension, and counts, maximum size, raggedness flag and mask updated accordingly; appending an empty batch changes nothing and appending to an empty batch yields an independent copy. Incompatible operands (different attributes, batch sizes, feature widths, devices) are rejected before anything changes.",
 ["histories","inputs"],"all attribute subsets and batch sizes of both operands, and all internal states in which they arrive",
 "Tests append a handful of shapes; an attribute appended in the wrong order or a stale cached form needs a specific attribute and a specific earlier read.",
 [PC],[("per-attribute concatenation and partner reset","Pointclouds.append_points"),("compatibility checks","Pointclouds.append_points")],
 [("counts, maximum, raggedness","size metadata",PC)],["append_points"])
p("P06","Selecting clouds from a batch keeps points, normals, colors and features aligned",
 "Indexing a point cloud batch by integer, slice, list or integer/boolean tensor selects the same clouds, in the same order, for points and for every attribute that is present, keeps absent attributes absent, and rejects unsupported index types. A cloud exported for viewing uses the same rows for points, colors and normals.",
 ["inputs"],"all supported index kinds and all attribute subsets",
 "Tests use a few index values; misalignment can be confined to one attribute under one index kind.",
 [PC],[("parallel selection of the four attributes","Pointclouds.__getitem__")],(),["__getitem__"])
p("P07","Rigid transforms rotate points and normals alike and translate only points",
 "Rotating a point cloud maps every point and every normal by the same matrix (R·p when pre-multiplying, p·R when post-multiplying), and a rigid transform additionally offsets points, but not normals, colors or features, by the translation column. Per-cloud matrices are applied to their own cloud, and the function-level helpers for points and normals follow the same convention as the batch operation.",
 ["inputs"],"all rotations/transforms, batched or not, pre- or post-multiplied, for all clouds",
 "A transposed matrix, or a translated normal, is invisible on the symmetric or identity matrices and the point-only assertions tests use.",
 [PC,GEO],[("einsum on points and normals","Pointclouds.rotate_"),("rotation then offset","Pointclouds.transform_"),("transform_pointcloud / transform_normals","geometryutils")],(),["rotate, transform, @ operator","transform_pointcloud","transform_normals"])
p("P08","Derived maps of an RGB-D batch are never stale",
 "The vertex, normal, global vertex, global normal and valid-depth maps of an RGB-D image batch always equal what a freshly built batch with the current depth, intrinsics, poses and channel layout would give, no matter which of them were read before an input was replaced or the layout converted.",
 ["histories"],"all interleavings of reading derived maps, replacing depth/intrinsics/poses, and converting layout",
 "A stale cache needs the sequence read, replace, read on one particular map; tests check freshly built batches.",
 [RGBD],[("lazy caches reset by setters","RGBDImages setters"),("layout conversion permutes caches","to_channels_first_/to_channels_last_")],
 [("derived map caches","lazily computed maps",RGBD)],["vertex_map, normal_map, global_vertex_map, global_normal_map, valid_depth_mask"])
p("P09","Channel layout is a representation choice: results do not depend on it",
 "Converting an RGB-D batch between channels-first and channels-last permutes every image-like quantity consistently and round-trips, and every consumer (point cloud extraction, downsampling, correspondence search, map fusion, plotting) gives the same result for either layout.",
 ["inputs","histories"],"both layouts, every conversion history, every consumer",
 "Nearly all tests of the consumers use one layout.",
 [RGBD,UT,ICPU,FU],[("inverse axis permutations over image tensors and caches","to_channels_first_/to_channels_last_"),("layout-dependent computation of derived maps","RGBDImages._compute_*"),("conversion to channels-last before indexing","pointclouds_from_rgbdimages, downsample_rgbdimages, fusion utilities")],(),["to_channels_first/last","pointclouds_from_rgbdimages","downsample_rgbdimages","update_map_fusion"])
p("P10","Copying or slicing an RGB-D batch is complete and independent",
 "clone, detach, requested copies on device moves and out-of-place layout conversion of an RGB-D batch carry every input and every cached map with the same layout flag, and share no storage with the source; indexing by batch and sequence applies the same selection to every per-frame quantity while intrinsics are selected by batch only. A detached copy carries no gradient history, and a moved copy lies wholly on the requested device.",
 ["histories","inputs"],"all copy operations and index tuples, with any subset of optional inputs and caches present",
 "Missing or misaligned pieces show only for optional inputs or already-computed caches, and aliasing only after a later mutation.",
 [RGBD],[("copy loop over the table of internal tensors","RGBDImages.clone/detach/to/__getitem__")],
 [("table of internal tensors","what a copy carries",RGBD)],["clone","to","__getitem__"])
p("P11","Pixels with missing depth never contribute geometry",
 "A pixel whose depth is not positive has zero vertex, zero normal, zero global vertex and zero global normal (the pose translation is not added to it), is marked invalid, and is never turned into a map point by point cloud extraction with filtering, by downsampling, or by map fusion, for colors and normals alike.",
 ["inputs"],"all depth images and poses",
 "Requires missing depth in combination with a non-zero translation or at particular pixels, per map and per consumer; the tests use a few fixed images.",
 [RGBD,UT,ICPU,FU],[("multiplication by the valid-depth mask","RGBDImages._compute_*"),("mask indexing of points, normals and colors","pointclouds_from_rgbdimages, downsample_rgbdimages, fuse_with_map")],(),["vertex maps, normal maps","pointclouds_from_rgbdimages","downsample_rgbdimages","fuse_with_map"])
p("P12","With inplace off, mapping and tracking steps leave map and frame untouched",
 "A mapping, fusion or SLAM step called without in-place semantics does not modify the caller's map or frames (values, attributes, poses) and returns a map that shares no mutable state with the caller's; with in-place semantics the returned map is the caller's own object.",
 ["inputs","histories"],"all maps, frames, correspondences and both settings of the in-place option",
 "Tests compare the returned map, rarely the argument; mutation depends on whether correspondences exist and on the odometry kind.",
 [FU,SLAM,PF],[("clone before mutation when not in place","fuse_with_map, update_map_aggregate, ICPSLAM.step")],(),["fuse_with_map","update_map_aggregate","update_map_fusion","ICPSLAM.step"])
p("P13","Map fusion averages all attributes with one set of confidence weights",
 "A map point matched to a pixel becomes the average of its old value (weighted by its confidence) and the pixel's value (weighted by the pixel's confidence) with the same two weights for position, normal and color, its confidence becomes the sum of the two, and unmatched points keep their values. Every valid-depth pixel without a match is appended exactly once as a new point with its own position, normal, color and confidence, and matched or missing-depth pixels are not appended.",
 ["inputs"],"all maps, frames and correspondence tables",
 "Weights that differ only for one attribute, or an append mask off for some pixels, need specific numerical configurations; tests check a few tiny maps (and cannot run here).",
 [FU],[("weighted average and append mask","fuse_with_map"),("pixel confidence","get_alpha")],(),["fuse_with_map"])
p("P14","Correspondences are (batch, point, row, column), valid and unique per pixel",
 "Each correspondence row names a batch, a point of that batch's map, and a pixel row and column: only real points in front of the camera that project inside the image bounds are candidates, only candidates closer than the distance threshold and with normal agreement above the angle threshold survive, and at most one point per pixel is kept: the one with the highest confidence, then the smallest distance. Every consumer reads the columns in that order.",
 ["inputs"],"all maps, frames, thresholds",
 "Swapped columns are invisible for square or symmetric scenes, bounds only at image borders, uniqueness only with ties; sampled tests miss them.",
 [FU,ICPU],[("candidate search and column assembly","find_active_map_points"),("thresholding","find_similar_map_points"),("row sort and first-of-group selection","find_best_unique_correspondences"),("column consumers","fuse_with_map, downsample_pointclouds")],(),["find_correspondences"])
p("P15","Gradients flow from inputs to outputs along every numerical path",
 "Every differentiable computation the library exposes (back-projection and derived maps, rigid transforms, projection, exponential map, linear solve, gradient-based registration, map aggregation and fusion values, pose composition) is connected to its tensor inputs by differentiable operations: no detaching, no conversion to plain numbers or arrays, and no gradient-disabling scope lies on a value path from input to output. Only discrete selection (indices, masks, correspondences, comparisons) may be non-differentiable.",
 ["inputs","programs"],"all entry points and all program paths through them",
 "A severed gradient yields correct forward values, which is what the tests compare.",
 [PC,RGBD,FU,ICPU,GEO,PROJ,SE3,SLAM],[("torch operations throughout","all modules"),("soft damping and transform update","point_to_plane_gradICP")],(),["requires_grad of outputs"])
p("P16","Guarded divisions are safe in value and in gradient",
 "Wherever the library guards a division against a zero or tiny denominator (homogeneous scale, depth, norm, confidence, intrinsics), the denominator itself is made safe before dividing, so that neither the result nor its gradient becomes infinite or NaN at the guarded points; a guard never merely selects between an unsafe quotient and a fallback.",
 ["inputs"],"all inputs including zero depth, points at infinity, zero norms, zero confidence",
 "The gradient failure leaves forward values correct and occurs only at exactly the guarded inputs.",
 [GEO,PROJ,RGBD,FU],[("where on the denominator","unhomogenize_points, project_points, cam2pixel, _compute_normal_map, fuse_with_map")],(),["gradients of the guarded functions"])
p("P17","Registration keeps transform, cloud and damping in step",
 "In iterative registration the accumulated transform is always the product (increment on the left) of exactly the increments applied to the source cloud, starting from the initial transform; the plain solver accepts a step only if the look-ahead error decreased (then relaxing the damping), otherwise leaves transform and cloud unchanged and increases damping; the differentiable solver scales the same increment and damping by smooth functions of the same error difference, bounded by the configured maximum and its reciprocal.",
 ["inputs","histories"],"all clouds, thresholds, iteration counts and damping histories",
 "A transform/cloud mismatch needs several iterations with rejected steps to appear; the tests are few and cannot run in this build.",
 [ICPU],[("accept/reject update","point_to_plane_ICP"),("smooth update","point_to_plane_gradICP")],
 [("transform, source cloud, damping","loop-carried state",ICPU)],["point_to_plane_ICP","point_to_plane_gradICP"])
p("P18","Point-to-plane rows match the twist convention of the exponential map",
 "Each source point contributes one row (n, s×n) and residual n·(d−s) built from its nearest target point d and that point's normal n, with source, target and normal selected by the same filter and correspondence; the solver returns the damped least-squares solution of that system, and its first three unknowns are interpreted as translation and last three as rotation by the exponential map.",
 ["inputs"],"all clouds and distance thresholds",
 "Sign or ordering errors in single columns leave small registration problems converging; exact columns are not asserted.",
 [ICPU,SE3],[("system assembly","gauss_newton_solve"),("normal equations","solve_linear_system"),("twist split","se3_exp")],(),["gauss_newton_solve","solve_linear_system","se3_exp"])
p("P19","Tracking composes the frame-to-map increment onto the previous pose",
 "With registration odometry, the new pose is the registration increment composed on the left of the previous frame's pose, where the live frame is placed with the previous pose before registration and the map is restricted to points visible from the previous frame; with ground-truth odometry, or for the first frame, the supplied pose is used unchanged. Providers always receive the map as target and the frame as source and return one transform per batch element.",
 ["inputs","histories"],"all odometry kinds, frames and maps",
 "Left/right composition coincide for the identity or single-axis motions; tests of tracking cannot run in this build.",
 [SLAM,ICP,GICP,GT],[("pose composition","ICPSLAM._localize"),("target/source wiring","ICPOdometryProvider.provide, GradICPOdometryProvider.provide"),("relative pose","GroundTruthOdometryProvider.provide")],(),["ICPSLAM.step"])
p("P20","The SLAM loop localises, maps with the new pose, and reports every pose",
 "For each frame of a sequence, in order, the pose is estimated first, stored in the frame, and the map is then updated with the frame at that pose; the frame becomes the reference for the next one, the growing map is carried through the whole sequence, and the recovered pose of frame s is stored at position s of the result.",
 ["inputs","histories"],"all sequences, batch sizes and odometry kinds",
 "Order and carry-over errors appear only over multi-frame runs.",
 [SLAM,PF],[("frame loop","ICPSLAM.forward"),("localise then map","ICPSLAM.step")],(),["ICPSLAM.forward"])
p("P21","User hyperparameters reach the algorithm they name",
 "Every hyperparameter accepted by the SLAM systems and odometry providers (odometry kind, downsampling ratio, iterations, damping, distance thresholds, angle threshold, sigma, and the differentiable solver's shape parameters) is delivered unchanged, or through its documented unit conversion, to the parameter of the same meaning in the algorithm, and no two are exchanged or dropped.",
 ["configurations","programs"],"all values of all hyperparameters and all odometry kinds",
 "Swapped or dropped parameters coincide at the defaults that tests use.",
 [SLAM,PF,ICP,GICP,FU],[("positional and keyword forwarding","ICPSLAM.__init__, PointFusion.__init__, provide(), _map()")],(),["effective parameters of the solver and fusion"])
p("P22","The exponential map has the exact Rodrigues structure",
 "The hat operators place each component with the right sign at the right position (skew-symmetric), and the SE(3)/SO(3) exponentials combine identity, hat and squared hat with the coefficients sin θ/θ, (1−cos θ)/θ² and (θ−sin θ)/θ³ in rotation and translation part, returning a homogeneous matrix with last row (0,0,0,1) in the dtype and device of the input; the small-angle branch agrees with them at zero rotation.",
 ["inputs"],"all twists, including zero and near-zero rotation",
 "Coefficient or sign errors matter only for non-trivial rotation combined with translation.",
 [SE3],[("hat and closed form","so3_hat, se3_hat, so3_exp, se3_exp")],(),["se3_exp","so3_exp"])
p("P23","Rigid-transform inversion, composition and relative poses follow one convention",
 "Inverting a rigid transform gives (Rᵀ, −Rᵀt), composing T1 and T2 gives (R1R2, R1t2+t1), the relative transform of T1 and T2 is T1⁻¹T2, for single and batched inputs alike, with a homogeneous last row; all library uses of relative transforms (odometry ground truth, dataset poses, dataset transforms) follow this one convention, and malformed shapes are rejected.",
 ["inputs"],"all transforms, batched and unbatched",
 "Order and inverse errors vanish for identity, symmetric, or single-axis examples; the batched path is unexercised.",
 [GEO,GT,ICL,TUM,SC,DU],[("inverse/compose/relative","inverse_transfom_3d, compose_transforms_3d, relative_transform_3d, relative_transformation"),("dataset conversions","_preprocess_poses, poses_to_transforms")],(),["relative_transformation","poses_to_transforms"])
p("P24","Projection and back-projection use the pinhole model with the right axes",
 "Projection maps (X,Y,Z) through the camera matrix to (x/z, y/z) with x before y, back-projection multiplies the inverse intrinsics by the homogeneous pixel and the depth, the inverse intrinsics use fx, cx for the horizontal and fy, cy for the vertical axis, pixel positions pair the column index with the first coordinate and the row index with the second, and homogenising appends a one that de-homogenising divides by and removes. The duplicated helpers agree with each other.",
 ["inputs"],"all points, intrinsics, image sizes, batch shapes",
 "Axis swaps are invisible for square images, equal focal lengths or centred points.",
 [PROJ,GEO,RGBD],[("projection/back-projection","project_points, unproject_points, inverse_intrinsics, cam2pixel, transform_pts_3d"),("pixel grid","create_meshgrid, RGBDImages._compute_vertex_map")],(),["project_points","unproject_points","inverse_intrinsics","vertex_map"])
p("P25","Dataset clips cut every per-frame list with the same window",
 "Every clip returned by a dataset takes the same frame indices, start + i·(dilation+1) for i below the sequence length, for all modalities; consecutive clips start one stride apart, clips never run past the requested frame range or across sequences, and the reported number of clips equals the number that can be fetched.",
 ["configurations","inputs"],"all sequence lengths, dilations, strides, ranges, sequences",
 "Tests cover few combinations of length, dilation and stride on tiny fixtures.",
 [ICL,TUM,SC],[("window construction","dataset __init__"),("per-clip loading","dataset __getitem__")],(),["__len__","__getitem__"])
p("P26","Dataset return flags control exactly their own output, in the documented order",
 "Each return option adds or removes exactly its own entry of a dataset item, entries keep one fixed documented order (color, depth, intrinsics, pose, transform, names, then dataset-specific extras), and the value of an entry does not depend on which other entries are requested.",
 ["configurations"],"all combinations of return options for all datasets",
 "There are 2^5 to 2^6 combinations per dataset; tests run a few.",
 [ICL,TUM,SC],[("gated appends","dataset __getitem__")],(),["__getitem__"])
p("P27","Frames, poses and timestamps refer to the same instant for every frame range",
 "The pose (and timestamps, depth, label) delivered with a color frame is the one recorded for that very frame, independently of the start and end of the selected range and of the stride and dilation.",
 ["configurations","inputs"],"all start/end ranges and all sequences",
 "Misalignment needs a non-zero start; fixtures are short and mostly read from the beginning.",
 [ICL,TUM,SC],[("pose line numbers","ICL.__init__, ICL._loadPoses"),("association","TUM._findAssociations"),("metadata lines","Scannet.__init__")],(),["poses returned by __getitem__"])
p("P28","Dataset enumeration order is deterministic",
 "The order of sequences and clips in a dataset depends only on the names in the dataset directory and the arguments, never on the order in which the operating system lists a directory or on hashing.",
 ["configurations","schedules"],"all file systems / directory listing orders",
 "On one machine the listing order is usually stable, so tests cannot see it.",
 [ICL,TUM,SC],[("sorted directory listings","dataset __init__")],(),["order of items"])
p("P29","Timestamp association is one-to-one, within tolerance, and ordered by closeness",
 "Associating two timestamp lists pairs each timestamp at most once on either side, only when the offset-corrected difference is below the tolerance, prefers closer pairs, and returns pairs in time order; list and trajectory reading keep the association between a timestamp and its own data and skip comments, invalid rotations and NaN rows.",
 ["inputs"],"all timestamp lists, offsets and tolerances",
 "Conflicts (two candidates for one stamp) are rare in fixtures.",
 [TU,TUM],[("greedy matching","associate"),("parsing","read_file_list, read_trajectory")],(),["associate","TUM associations"])
p("P30","Segmentation label tables are mutually consistent",
 "Every label of the 40-class scheme is mapped either to the label of the same class name in the 20-class scheme or to unlabeled if that scheme lacks the class; the mapping lands in the contiguous label range, sequential application never re-maps an already mapped label, and shared classes have the same color in both palettes with no two classes sharing a color. A palette's colors are painted by class index.",
 ["inputs"],"all labels of both schemes",
 "Tests use a few label values.",
 [SC,DU],[("remapping table","nyu40_to_scannet20"),("palettes","get_color_encoding"),("painting","create_label_image")],(),["nyu40_to_scannet20","get_color_encoding"])
p("P31","Configuration merges cannot change a value's type or invent keys",
 "Merging a file, another configuration or an override list into a configuration only replaces existing keys with values of the same type (tuple and list being interchangeable by conversion), recursing into sub-configurations; unknown keys are rejected unless new keys are allowed, deprecated keys are ignored, renamed keys raise, values of unsupported types are rejected, and a merge never aliases the source configuration.",
 ["inputs","configurations"],"all configurations, override files and lists",
 "Tests check a few type pairs and key paths.",
 [CFG],[("merge and coercion","_merge_a_into_b, merge_from_list, _check_and_coerce_cfg_value_type"),("type whitelist","_valid_type, __setattr__, _create_config_tree_from_dict")],(),["merge_from_file, merge_from_other_cfg, merge_from_list"])
p("P32","Freezing a configuration protects the whole tree, and copies are independent",
 "After freezing, assigning any attribute anywhere in the configuration tree fails until it is defrosted; freeze and defrost reach every nested configuration, internal bookkeeping cannot be overwritten through attribute assignment, and a cloned configuration is deep and independent of the original.",
 ["histories"],"all nestings and all sequences of freeze, defrost, assignment, clone",
 "Tests check one nesting level.",
 [CFG],[("immutability flag propagated recursively","CfgNode._immutable, __setattr__"),("deep copy","CfgNode.clone")],
 [("immutability flag","per-node frozen state",CFG)],["freeze, defrost, attribute assignment"])
p("P33","Loading configuration text never executes code",
 "Text and YAML configuration content, and override strings, are parsed only by a safe loader and a literal parser; code is executed only for files with a Python extension explicitly given as configuration, and other file types are rejected.",
 ["inputs","programs"],"all configuration inputs and all code paths that parse them",
 "An unsafe loader behaves identically on benign inputs.",
 [CFG],[("safe YAML loading","CfgNode._load_cfg_from_yaml_str"),("literal decoding","CfgNode._decode_cfg_value"),("extension dispatch","CfgNode._load_cfg_from_file")],(),["load_cfg, merge_from_file, merge_from_list"])
p("P34","Library functions do not modify the tensors and arrays passed to them",
 "Functions and constructors never write into tensors, arrays, lists or dictionaries supplied by the caller (directly or through views), for all supported input kinds and dtypes; only operations documented as in place update, and then only their own object.",
 ["inputs"],"all functions of the library and all input dtypes/kinds (copying conversions may be no-ops)",
 "Tests check outputs; aliasing depends on dtype, because a conversion that usually copies is a no-op for matching dtypes.",
 [GEO,PROJ,SE3,DU,TU,SU,FU,ICPU,PC,RGBD],[("functional style","all modules")],(),["arguments after the call"])
p("P35","Helpers create tensors on the device and in the dtype of their inputs",
 "Tensors created inside numerical code (identities, zeros, ones, masks, grids, index tables, last rows) take the device of the data they are combined with, and the dtype where it matters, so results never depend on the default device and mixed-device operations never occur.",
 ["configurations","inputs"],"all devices and floating dtypes of inputs",
 "There is no accelerator in the test environment, so a forgotten device cannot fail there.",
 [GEO,PROJ,SE3,ICPU,ICP,GICP,FU,SLAM,RGBD,PC,DU],[("device/dtype propagation","creation sites")],(),["device of results"])
p("P36","Resizing images scales intrinsics and depth consistently",
 "Datasets resize color with interpolation and depth or labels with nearest-neighbour to the requested height and width, scale the horizontal focal length and center by the width ratio and the vertical ones by the height ratio, convert depth to metric units by the dataset's factor exactly once, and apply layout and normalisation options to the outputs they name in every dataset alike.",
 ["configurations"],"all output sizes and all datasets and options",
 "Fixtures use few sizes; equal ratios hide axis swaps.",
 [DU,ICL,TUM,SC],[("ratio computation and scaling","dataset __init__, scale_intrinsics"),("preprocessing","_preprocess_color, _preprocess_depth, _preprocess_label")],(),["intrinsics, color, depth, label entries"])
p("P37","All quaternion-to-rotation conversions use one convention (x, y, z, w)",
 "Every conversion from a quaternion to a rotation or pose takes the scalar last, normalises first, and yields the same right-handed rotation matrix entries, for single and batched inputs, preserving leading dimensions, with the translation in the last column of a homogeneous matrix.",
 ["inputs"],"all quaternions and batch shapes",
 "Entry-level sign errors cancel for rotations about one axis or for the identity.",
 [GEO,DU,TU],[("matrix assembly","quaternion_to_rotation_matrix, pointquaternion_to_homogeneous, transform44"),("axis-angle","quaternion_to_axisangle")],(),["quaternion_to_rotation_matrix","pointquaternion_to_homogeneous","transform44"])
p("P38","A rejected operation leaves the object unchanged",
 "When an operation on a point cloud or RGB-D batch, or a mapping step, raises because of invalid input, the object it was called on is exactly as before: all validation precedes the first visible change. Inputs that cannot describe a batch (mismatched shapes, sizes or types, padded replacements with nonzero padding) are rejected.",
 ["inputs","histories"],"all invalid operands of all mutating operations",
 "Tests assert that an error is raised, not what the object looks like afterwards.",
 [PC,RGBD,FU],[("checks before updates","setters, append_points, in-place operators, fuse_with_map")],(),["object state after an exception"])
p("P39","Optional arguments may be omitted: absent values are never used as if present",
 "For every public function, arguments documented as optional and attributes that may be absent (initial transform, poses, normals, colors, features, intrinsic grids) can be omitted on every path without the absent value being dereferenced; a path that genuinely needs it reports a descriptive error first.",
 ["inputs"],"all combinations of omitted options and absent attributes",
 "Tests always pass most options.",
 [ICPU,FU,PC,RGBD,SLAM,UT,ICL,TUM],[("defaults applied before first use","point_to_plane_ICP and siblings"),("presence checks","Pointclouds, RGBDImages, SLAM")],(),["calls with defaults"])
# not claimable by static analysis
p("P40","Registration converges to the true alignment",
 "For overlapping clouds with small relative motion, iterative registration converges to the rigid motion aligning them, and the error is non-increasing over accepted iterations.",
 ["inputs"],"all cloud pairs within the convergence basin",
 "Convergence is a numerical property over a continuum of inputs.",
 [ICPU],[("Levenberg-Marquardt loop","point_to_plane_ICP, point_to_plane_gradICP")],(),["returned transform"])
p("P41","Back-projection followed by projection recovers the pixel",
 "For every valid pixel, projecting the vertex computed from its depth returns the pixel coordinates up to floating-point error.",
 ["inputs"],"all intrinsics and depths","Round-trip accuracy is numerical.",
 [PROJ,RGBD],[("inverse_intrinsics, project_points","projutils")],(),["pixel error"])
p("P42","Reconstructions are numerically accurate",
 "Running SLAM on a sequence yields poses and a map within a bounded error of ground truth.",
 ["inputs"],"all sequences","Accuracy depends on run-time data.",
 [SLAM,PF],[("whole pipeline","ICPSLAM.forward")],(),["trajectory error"])
p("P43","Nearest neighbours and matches are globally optimal",
 "Each source point is associated with its true nearest target point.",
 ["inputs"],"all clouds","The search is performed by an external compiled library on run-time values.",
 [ICPU],[("external k-nearest-neighbour search","gauss_newton_solve")],(),["indices"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
