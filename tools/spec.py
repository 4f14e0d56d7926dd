"""Properties of ezwelty/glimpse: the single source of properties.jsonl and MANIFEST.json.

Run ``python3 tools/spec.py`` to rewrite both files.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/glimpse/"
MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, level, technique, note, observe=None, state=None):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why,
        files=[S + f for f in files],
        mechanism=[{"name": n, "where": S + w} for n, w in mechanism],
        level=level, technique=technique, note=note, observe=observe or [], state=state or [],
    ))


prop(
    "C01", "Parallel tracking gives exactly the serial result",
    "For motion models that do not themselves depend on a shared random stream, tracking with any number of processes or threads returns, for every track, the same means, standard deviations, particles, weights and failure status as tracking serially. "
    "This holds for every order in which workers start, interleave and complete, and results always stay in the order of the motion models.",
    ["schedules", "configurations"],
    "Every completion order of up to 4 tracks (serial, process-like and thread-like pools), and every interleaving of 2-3 tracking threads with at most 2 (thorough: 3) preemptions at every call the tracker makes into an observer or a motion model.",
    "Tests run one serial and (at most) one parallel schedule picked by the OS; a shared-state race or an ordering bug shows only in particular interleavings.",
    ["track/tracker.py", "config.py"],
    [("Tracker.track / process", "track/tracker.py:Tracker.track"), ("pool backend", "config.py:backend")],
    MC, "stateless model checking of the real tracker under a controlled scheduler (preemption-bounded) and permuted pool",
    "Scheduling points are the calls into observers, motion models and reducers; bytecode-level races between them are not explored. Warnings records are outside the claim under threads (Python's warnings filter is process-global).",
    ["Tracks returned by Tracker.track"],
)
prop(
    "C02", "A failing track never disturbs the other tracks",
    "When several motion models are tracked together, an exception raised at any point while tracking one of them leaves every other track bit-identical to tracking without the failure, leaves the failing track's estimates filled up to the failure and missing after it, and is reported as the error of exactly that track whatever the type of the exception. Warnings are reported for exactly the track which caused them and change nothing else. "
    "With a single motion model the exception propagates to the caller.",
    ["fault_sequences"],
    "Every call the tracker makes into a motion model or observer (initialise, evolve, likelihood, project, box, extract, sample) for each of 3 tracks, each with every exception type of a menu (builtin, custom constructor arguments, OSError with errno, UnicodeDecodeError), serial and pooled; all pairs of faults in the thorough tier.",
    "Tests inject one failing track at one place; the guarantee quantifies over every failure point and exception type.",
    ["track/tracker.py", "track/tracks.py"],
    [("try/except around the track", "track/tracker.py:Tracker.track"), ("Tracks.success", "track/tracks.py:Tracks.success")],
    FE, "exhaustive fault enumeration over every call site occurrence of the real tracker run",
    "Faults are exceptions; process death (signals) is outside the bound.",
)
prop(
    "C03", "Tracks start, step, match images and end exactly as documented",
    "A track starts from the initial particles at the first tracked datetime for which one of its observers has a matching image and ends at the last one, and estimates before and after are missing. "
    "Between them the particles are evolved once per step by the signed time difference, each observer's template is taken once from its first matching image at the particle mean of that time, and every observer used by the track contributes exactly the image nearest within the maximum time difference. "
    "Times matching no observer and duplicates are dropped, non-monotonic or fewer than two usable times are refused.",
    ["histories", "inputs", "configurations"],
    "Every assignment of 2 observers' image times over a small timeline, every tracked-time sequence up to length 4-5 (forwards, backwards, with duplicates and gaps), maximum time differences {0, half, one step} and every observer mask.",
    "Tests track two fixed timelines with all observers; gaps, masks, late starts and reverse order combine multiplicatively.",
    ["track/tracker.py"],
    [("Tracker.track loop", "track/tracker.py:Tracker.track"), ("Tracker.parse_datetimes", "track/tracker.py:Tracker.parse_datetimes"), ("Tracker.match_datetimes", "track/tracker.py:Tracker.match_datetimes")],
    MC, "explicit enumeration of timelines; call history of the real tracker compared with a reference scheduler",
    "Observers and motion models are recording stand-ins or small in-memory rasters; pixel statistics are the subject of C30.",
)
prop(
    "C04", "Particle resampling is valid and unbiased for every random draw",
    "For every weight vector with a positive sum and every random draw, resampling returns as many particles as before, each a copy of an existing particle together with its own weight, and never reproduces a zero-weight particle. "
    "Systematic, stratified and residual resampling reproduce each particle a number of times that departs from its expected number by less than the bound of the method (1, 2, and never below the integer part, respectively), and averaged over the draws the number of copies is the expected number.",
    ["inputs"],
    "All weight vectors over {0, tiny, 1, 2, 5} (plus rounding-prone ones) for up to 4-5 particles, with every draw on a grid of the unit interval including both ends, every draw vector for stratified and residual.",
    "Tests use a handful of random draws; off-by-one at the end of the cumulative sum or a biased residual needs particular draws.",
    ["track/tracker.py"],
    [("Tracker.resample_particles", "track/tracker.py:Tracker.resample_particles")],
    MC, "exhaustive enumeration of weights and of every answer of the random source against counting bounds",
    "numpy.random.random / choice are replaced by a scripted environment; the alphabet of draws is a grid, cumulative sums are compared in exact rational arithmetic away from ties.",
)
prop(
    "C05", "Time matching and selection pick the right images",
    "An observer accepts only two or more images with strictly increasing times; looking up a time returns the nearest image and refuses it if farther than the maximum difference; subsets keep exactly the images selected by start, end, allowed times, minimum spacing and snapping; and splitting covers every image, in order, with exactly the requested overlap between consecutive parts.",
    ["inputs", "configurations"],
    "Every increasing image-time pattern on a grid of up to 6 slots, every query time, tolerance, start/end/snap/maxdt combination, every number of parts and breakpoint set, overlaps 0-2.",
    "Tests check a few fixed lists; boundary times, ties and uneven spacing are where selection goes wrong.",
    ["track/observer.py", "helpers.py"],
    [("Observer.index/subset/split", "track/observer.py:Observer"), ("select_datetimes", "helpers.py:select_datetimes"), ("datetime_range", "helpers.py:datetime_range")],
    MC, "exhaustive small-scope enumeration against list-comprehension reference models",
    "Times are whole seconds on a small grid (plus thirds for uneven splits).",
)
prop(
    "C06", "Motion models follow their documented equations",
    "For every random draw, initial particles and evolved particles of each motion model equal the documented equations (mean plus sigma times draw; Cartesian or cylindrical components; positions advanced by velocity and half the squared time, velocities by acceleration; heights free or tangent to the surface). "
    "Time steps scale with the time unit, a zero step changes nothing, constant-velocity steps compose and reverse exactly, and a particle at rest stays finite. "
    "Particles on their surface have the largest surface likelihood, and a missing or zero surface uncertainty adds no likelihood.",
    ["inputs", "histories"],
    "Every model class, every draw vector over {-1, 0, 1, 2} for 1-3 particles, sigmas on/off, velocities including zero, accelerations, forward/backward steps in several time units, sequences of up to 4 steps, constant and sloping surfaces.",
    "Tests track with all-zero or random values once; sign, unit and branch errors need particular combinations.",
    ["track/motion.py"],
    [("CartesianMotion", "track/motion.py:CartesianMotion"), ("CylindricalMotion", "track/motion.py:CylindricalMotion"), ("TangentCartesianMotion", "track/motion.py:TangentCartesianMotion"), ("TangentCylindricalMotion", "track/motion.py:TangentCylindricalMotion")],
    MC, "exhaustive enumeration of random draws and step histories against an independent implementation of the equations",
    "numpy.random.randn is a scripted environment; surfaces are constant or linear so that interpolation is exact.",
)
prop(
    "C07", "Windowed and cached image reads always show the same pixels",
    "Reading any whole-pixel window of an image returns exactly the corresponding part of reading the whole image at the camera's current size, whatever was read, cached, resized or cleared before. "
    "After an image's camera is resized, reads have the new size; uncached reads leave nothing cached; cached reads leave an array that equals a full read.",
    ["histories"],
    "Every sequence up to depth 3 (thorough: 4) of read(full/window, cached/uncached), camera resize, cache clearing on real image files, all window positions on a grid.",
    "Tests read one window once; stale caches and window scaling need a history of resizes and reads.",
    ["image.py"],
    [("Image.read", "image.py:Image.read")],
    MC, "explicit-state exploration of operation histories on the real Image against a freshly opened one",
    "Resized pixels are compared with a full read of a fresh image of the same size (GDAL nearest-neighbour scaling is not re-specified); windows at resized scale are compared in shape always and in content where GDAL scaling is exact (integer factors).",
)
prop(
    "C08", "Windowed raster reads and copies describe the same cells",
    "Reading any grid-aligned window of a raster, cached or not, returns exactly the cells of the full array inside that window and leaves the raster itself describing its full extent. "
    "Indexing by rows and columns returns cells whose coordinates and values agree with the source, and later changes to a copy never change the source.",
    ["histories", "inputs"],
    "All windows of a 4x5 raster with either axis direction, from file and from memory, in every sequence up to depth 3 of cached/uncached/window reads; all row/column slices.",
    "Tests read full rasters; windows after windows and cache interactions are not sampled.",
    ["raster.py"],
    [("Raster.read", "raster.py:Raster.read"), ("Grid.__getitem__", "raster.py:Grid.__getitem__"), ("Raster.copy", "raster.py:Raster.copy")],
    MC, "explicit-state exploration of read histories on real GDAL files against an array model",
    "Files are GeoTIFFs made in a scratch directory.",
)
prop(
    "C09", "Editing a raster in place keeps every view of it consistent",
    "After any sequence of in-place changes (shift, crop, resize, resample, flip by assigning limits, value assignment, filling holes; by methods, by assigning limits, arrays and sizes, or by editing these in place, as in `raster.xlim += 1`) and reads of derived data, every derived quantity (cell coordinates, cell size, extent, sampled values) equals that of a raster newly built from the current array and limits. "
    "In-place changes never alter coordinates, grids or copies held by the caller.",
    ["histories"],
    "Every sequence up to depth 3 (thorough: 4) over an alphabet of mutators interleaved with cache-filling reads, both axis directions, integer and float limits.",
    "Cached coordinates and interpolants go stale only for particular orders of reads and writes; tests call each operation once on a fresh raster.",
    ["raster.py"],
    [("Grid cached coordinates", "raster.py:Grid"), ("Raster.shift/crop/resize/resample", "raster.py:Raster")],
    MC, "explicit-state exploration of operation sequences on real rasters against a rebuild-from-scratch model",
    "Sampling is compared at cell centres and edge mid-points for orders 0 and 1.",
)
prop(
    "C10", "Grid coordinate conversions agree with one another",
    "Converting row and column indices to coordinates and back is the identity for every cell of every grid, coordinates anywhere inside a cell snap to that cell, snapping a coordinate returns the nearest centre or edge, and flat indices and row/column pairs correspond one to one. "
    "Cropping to limits returns exactly the cells the limits touch, and windows snapped to the grid have the requested size and stay inside the grid. Sizes, limits and coordinates which describe no grid are refused.",
    ["inputs", "configurations"],
    "All grids up to 5x5 with cell sizes {0.1, 1/3, 1, 2.5, 1e-3}, origins {0, offsets}, all four axis directions; all cells, centres, edges and interior points; all crop limits and box sizes.",
    "Tests use one grid of unit cells; rounding (0.1 steps) and flipped axes decide the index.",
    ["raster.py"],
    [("Grid.xy_to_rowcol/rowcol_to_xy/idx_to_rowcol", "raster.py:Grid"), ("Grid.snap_xy/snap_box/crop_extent", "raster.py:Grid")],
    MC, "exhaustive enumeration of grids and cells against exact rational cell geometry",
    "Coordinates within 1e-9 cell of a decision boundary are excluded, except where the documentation fixes the tie.",
)
prop(
    "C11", "Tiles cover a grid exactly once",
    "Splitting a grid into tiles of any requested size covers every cell exactly once when tiles do not overlap, covers every cell at least once and never leaves the grid when they do, and extends each tile by exactly the requested overlap except at the grid's edge.",
    ["inputs"],
    "All grid shapes up to 7x7 (thorough: 10x10), all tile sizes (and some fractions) and overlaps up to twice the grid, with every axis direction.",
    "A tile dropped or duplicated needs a particular remainder or overlap; tests sample one.",
    ["raster.py"],
    [("Grid.tile_indices", "raster.py:Grid.tile_indices")],
    MC, "exhaustive enumeration, coverage counted cell by cell",
    "Tile shape itself is only required to stay close to the requested size.",
)
prop(
    "C12", "Sampling and resampling a raster follow the cell values",
    "Nearest-neighbour sampling returns the value of the cell containing the point, bilinear sampling returns cell values at centres and weighted averages of the surrounding centres between them, missing cells yield missing values, and points outside raise or yield the documented fill. "
    "Sampling on a coordinate grid equals sampling its points one by one, in any order of the coordinates and for any axis direction. "
    "Resampling to another grid equals sampling at its cell centres.",
    ["inputs", "configurations"],
    "All value patterns (including missing cells) on rasters up to 3x4, all axis directions, sample points at centres, edges, corners, interior points and outside; point and grid forms with 1..n rows and columns.",
    "Tests sample one raster at a few points; missing cells, flipped axes and one-row grids are corner cases of the code paths.",
    ["raster.py"],
    [("Raster.sample", "raster.py:Raster.sample"), ("Raster.resample", "raster.py:Raster.resample")],
    MC, "exhaustive small-scope enumeration against a naive bilinear/nearest reference",
    "Orders 0 and 1; higher spline orders only for interpolation at centres.",
)
prop(
    "C13", "Rasters and images survive being written and read back",
    "Writing a raster and opening it again restores its values, missing cells, extent, axis directions and coordinate system, for every supported numeric type and missing-value marker; and a grid read from the file equals the raster's grid. Opened with a cell size, rasters and grids have as many cells as are needed to cover the extent, whatever the coordinates. What cannot be written (unknown formats or coordinate systems, unsupported data types) is refused and leaves the file as it was.",
    ["inputs", "configurations"],
    "All combinations of data type, axis directions, shapes (1xN, Nx1, NxM), coordinate system or none, missing-value markers including zero, with and without missing cells.",
    "Tests write one float raster; types, markers and flipped axes multiply.",
    ["raster.py"],
    [("Raster.write", "raster.py:Raster.write"), ("Raster.open", "raster.py:Raster.open"), ("Grid.read", "raster.py:Grid.read")],
    MC, "exhaustive configuration enumeration with real GDAL files",
    "GeoTIFF driver only.",
)
prop(
    "C14", "Interpolating rasters in time hits the observations",
    "Interpolating a raster between observations returns each observation exactly at its own coordinate, linear mixtures between them, the documented extrapolation or refusal outside, and the same result whether rasters are given in memory or as file paths; rasters of the same cell size are combined cell by cell wherever they are, and rasters of different cell size at the largest; uncertainties never shrink below the documented weighting.",
    ["inputs"],
    "All sets of up to 3 observation times, query times at, between and outside observations, in-memory and file rasters, with and without uncertainties and missing cells.",
    "Queries exactly at an observation and mixed missing cells are singular points tests do not visit.",
    ["raster.py"],
    [("RasterInterpolant", "raster.py:RasterInterpolant")],
    MC, "exhaustive small-scope enumeration against the documented linear formula",
    "Values are compared to 1e-9 relative.",
)
prop(
    "C15", "Viewsheds match line-of-sight geometry",
    "A cell is visible from a viewpoint exactly when no terrain along the line of sight (interpolated between cells, ring by ring) rises above it, so the viewpoint's own cell and its surroundings are visible, raising the observer never hides a cell seen over flat ground, and results do not depend on the elevation datum, the axis directions or the array's number type. "
    "The horizon of a viewpoint lies, in every direction, on the cell with the greatest elevation angle along that direction, and exists only where the direction crosses the raster.",
    ["inputs"],
    "All elevation patterns over {0, 1, 3} on small grids (1-D profiles up to 6 cells exhaustively, 3x3 and 4x4 two-level patterns), all viewpoints and heights, all axis directions.",
    "Tests compare one scene; occlusion is a many-cell history along each ray.",
    ["raster.py"],
    [("Raster.viewshed", "raster.py:Raster.viewshed"), ("Raster.horizon", "raster.py:Raster.horizon")],
    MC, "exhaustive small-scope terrain enumeration against brute-force ray geometry and metamorphic relations",
    "One-dimensional profiles are compared with exact geometry; two-dimensional scenes with an independent implementation of the documented ring interpolation; ties are not judged.",
)
prop(
    "C16", "Camera parameters stay consistent under every sequence of edits",
    "After any sequence of setting parameters (one by one, by name, or as a whole vector), resizing, resetting, copying, and saving and loading, a camera projects exactly like a camera newly built with the same parameter values. "
    "Resizing and resizing back restores the camera, resetting restores the original, copies are independent, arrays or lists passed in are never modified, and changing one parameter never changes another.",
    ["histories"],
    "Every sequence up to depth 3 (thorough: 4) over an alphabet of setters, resizes, reset, copy, JSON round trip, in every order.",
    "Tests set each parameter once; cached rotation matrices and scaled sizes go stale only for certain orders.",
    ["camera.py"],
    [("Camera vector and properties", "camera.py:Camera"), ("Camera.resize/reset/copy", "camera.py:Camera"), ("Camera.to_json/from_json", "camera.py:Camera")],
    MC, "explicit-state exploration of operation sequences on real cameras against freshly built cameras",
    "Parameter values from a small alphabet; projection compared on a fixed set of world and image points.",
)
prop(
    "C17", "Projecting to and from the image are inverse operations",
    "For every camera configuration, projecting a world point into the image and casting it back gives the same direction (and the same point when its depth is given), and points not in front of the camera are missing. Points are in front and inside the frame exactly when the geometry says so, image edges and rasterized points fall into the pixels that contain them, the distance form and the elevation correction move points as documented, derivatives of the rotation matrix match the rotation, and cameras whose distortion folds the image over are told apart.",
    ["configurations", "inputs"],
    "All combinations of view directions, focal lengths, principal points, radial, tangential and higher distortion terms on/off, elevation corrections on/off, with a grid of image points covering corners, edges, centre; depths and directions forms.",
    "Tests use a few cameras; sign, order and branch selection per distortion term multiply.",
    ["camera.py"],
    [("Camera.xyz_to_uv", "camera.py:Camera.xyz_to_uv"), ("Camera.uv_to_xyz", "camera.py:Camera.uv_to_xyz"), ("distortion", "camera.py:Camera._distort/_undistort")],
    MC, "exhaustive configuration enumeration; round trips plus an independent implementation of the projection formula",
    "Distortion magnitudes are those for which the documented iteration converges.",
)
prop(
    "C18", "Projecting a terrain into the image does not depend on tiling",
    "The image of an elevation model computed by a camera (with its values and depths) is the mean over all terrain cells which project into each pixel, and missing where there are none. It is the same for every tile size, overlap and processing order, masked and missing cells contribute nothing, and tiles rescaled to the image's resolution have the requested number of cells per pixel within the limits, stay within the bounds of the values and never depend on the order of processing.",
    ["schedules", "configurations"],
    "All tile sizes, with and without a mask, values, scale and scale limits on small scenes, serial and every completion order of the parallel tiles.",
    "Tests project one scene with one tiling.",
    ["camera.py"],
    [("Camera.project_dem", "camera.py:Camera.project_dem")],
    MC, "exhaustive enumeration of tilings and completion orders of the real computation, compared with each other",
    "Small rasterised scenes.",
)
prop(
    "C19", "Geometry helpers agree with exact geometry",
    "Intersections of lines, rays, segments and boxes, circles and lines on pixel grids, polygon rasterisation, polygon and box tests, and point-in-set queries agree with exact geometry for every small integer configuration, including degenerate and axis-aligned ones, and whatever the type of number of the coordinates. Points interpolated along a line are at the requested distances.",
    ["inputs"],
    "All segments and rays with integer end points on small lattices against all boxes; all lattice lines and circles; all small polygons.",
    "Degenerate and axis-aligned configurations divide by zero or hit ties; tests use generic ones.",
    ["helpers.py"],
    [("intersect_edge_box / intersect_rays_box / clip_polyline_box", "helpers.py"), ("bresenham_line / bresenham_circle", "helpers.py"), ("polygons_to_mask", "helpers.py")],
    MC, "exhaustive lattice enumeration against rational-arithmetic references",
    "Lattice coordinates only.",
)
prop(
    "C20", "Histogram matching preserves order and reproduces the template",
    "The cumulative distribution of an array is increasing, ends at one and reconstructs the array; matching an array to its own distribution returns the array, matching to another array's distribution preserves the order and ties of values and stays within the template's range, and normalised tiles have zero mean and unit spread.",
    ["inputs"],
    "All arrays up to 6 cells over small value alphabets (with repeats, constants and missing values where supported), all source/template pairs.",
    "Ties and single-value tiles are singular cases.",
    ["helpers.py"],
    [("compute_cdf / match_cdf / normalize", "helpers.py")],
    MC, "exhaustive small-scope enumeration against sorting-based references",
    "Values from a small alphabet.",
)
prop(
    "C21", "Keypoint and match files survive restarts, crashes and any schedule",
    "Building keypoints and matches for a sequence of images gives the same result serially and in parallel under every schedule, in one run or in several runs over any subsets, and whether kept in memory or on disk. "
    "Keypoints and matches in memory or on disk are reused unless overwriting is requested, in which case they are rebuilt and replaced; exactly the requested pairs are matched, and each match refers to the cameras of its images and is converted and filtered as requested. "
    "A run interrupted at any file operation, including in the middle of a write, leaves no partial file behind and can be repeated, in the same process or another, with the same result as an uninterrupted run. Images out of temporal order, and steps which need an earlier one or somewhere to write, are refused and change nothing.",
    ["crash_points", "histories", "schedules"],
    "Every state of keypoints in memory and on disk for 2 images x every build; all histories of builds, restarts and deletions up to depth 3 (thorough 4); every state of match files for 3 images x every option; every two runs over subsets; every selection of pairs for 2-4 (5) images; every crash point and truncation of 9 kinds of build; every completion order of parallel builds and all thread schedules with one preemption (thorough two).",
    "Tests run build once and never interrupt it.",
    ["optimize.py", "helpers.py"],
    [("KeypointMatcher.build_keypoints/build_matches", "optimize.py:KeypointMatcher"), ("write_pickle", "helpers.py:write_pickle")],
    MC, "exhaustive crash-point, history and schedule enumeration on the real matcher with real files, against a dictionary model of memory and disk",
    "Exact descriptor matching is used, because the default matcher is random. A crash ends the process at a system call.",
)
prop(
    "C22", "Match graph edits keep image pairs and indices aligned",
    "After any sequence of dropping images, filtering matches, converting match types and resizing, images and keypoints stay aligned, the remaining matches are exactly those of the remaining image pairs, and the point pairs of each are exactly those which pass the filters, in the same order, serially or in parallel, whichever the order of independent edits. "
    "Matches always refer to the cameras of their images; observed and predicted points are those of the current cameras (rotation matches refuse cameras whose internal parameters changed); counts per image and breaks in the sequence are those of the graph.",
    ["histories"],
    "All match graphs on up to 4 images, every sequence of edits up to depth 2-3 from an alphabet of up to 24 drops, filters, conversions and resizes; every order of pairs; every schedule of parallel edits.",
    "Tests apply each edit once to a chain of images.",
    ["optimize.py"],
    [("KeypointMatcher.drop_images/match_breaks/filter_matches", "optimize.py:KeypointMatcher"), ("Matches, RotationMatches, RotationMatchesXY(Z)", "optimize.py")],
    MC, "explicit-state exploration of edit sequences on real matcher objects against a dictionary model",
    "Synthetic keypoints.",
)
prop(
    "C23", "Calibration parameters map to the right cameras",
    "For every selection of camera-specific and shared parameters and every assignment of cameras to groups, setting a parameter vector changes exactly the selected parameters of the selected cameras, and predictions, residuals and errors (of all observations or any subset, with weights) are those of cameras built by hand with those values. "
    "Initial values and bounds are those of the cameras or as given, the declared sparsity covers every residual a parameter influences, and ambiguous problems (overlapping groups, cameras without control) are refused. "
    "Evaluating, plotting or fitting (in one or several steps) leaves the cameras and initial values unchanged, even when it fails, and a well-posed fit returns the true parameters, each step starting where the step before ended; options given for the optimizer reach it as given.",
    ["configurations", "fault_sequences"],
    "One to three cameras, every choice of parameters per camera from a small alphabet, one or two groups (overlapping parameters excluded), controls of points, lines, rays and matches; every index subset; every failure point (n-th prediction of each control) of every evaluation.",
    "Tests fit one configuration; index bookkeeping errors silently calibrate the wrong camera.",
    ["optimize.py"],
    [("Cameras.set_cameras / predicted / residuals / build_sparsity", "optimize.py:Cameras")],
    MC, "exhaustive configuration enumeration against a dictionary model of parameters, with fault injection",
    "Convergence is only claimed for well-posed synthetic problems; a parameter both camera-specific and shared for the same camera is excluded.",
)
prop(
    "C24", "RANSAC is right for every random choice",
    "For every sequence of random sample draws, robust fitting never repeats a sample, evaluates every sample up to the iteration limit and never more than exist, and returns the refit with the lowest mean error among the samples for which more than the required number of further members have an error below the limit. "
    "The returned inliers are exactly the members with an error below the limit under the returned parameters, and failure is reported if and only if no sample is acceptable. "
    "The polynomial model fits, predicts, measures and plots exactly the points it is given or told to use.",
    ["schedules", "inputs"],
    "The whole tree of draws (with repeats) for up to 5 members: all small data sets, sample sizes, consensus sizes and iteration limits, with failing fits and undefined errors; polynomials and cameras with outliers at every position.",
    "One seed explores one path of the random choice tree.",
    ["optimize.py"],
    [("ransac / ransac_samples", "optimize.py")],
    MC, "exhaustive exploration of the random-choice tree (scripted shuffle) with a reference consensus computation",
    "A location model stands in for the full tree; polynomials and cameras are explored over chosen orders of all samples.",
)
prop(
    "C25", "SVG shapes parse to the coordinates they draw",
    "Parsing an SVG drawing returns, for every supported element and path command (absolute and relative, repeated, with any separators), the vertices that the SVG standard assigns, with the transforms of the element and its groups applied and placed relative to the image at the requested image size, under the names of the elements; the last of several images counts, and what is not supported is refused. "
    "Writing shapes and drawings and parsing them again restores them at every indentation, and written drawings declare the size of their last image unless given one.",
    ["programs", "inputs"],
    "All path programs of up to 4 (thorough: 5) commands out of all 20, once and repeated, in 5 separator styles; point lists up to length 3-4 as every shape; group trees with every placement of 8 transforms, 6 images and 4 target sizes; all element trees of up to 3-4 nodes with every indentation; up to three images with every order, transform and nesting of a few.",
    "The grammar is a language; tests contain a few strings of it.",
    ["svg.py"],
    [("path parsing", "svg.py"), ("parse_svg / write_svg", "svg.py")],
    MC, "exhaustive enumeration of path programs against a reference SVG interpreter",
    "Vertices only (curvature is discarded, as documented). Recorded finding: several functions in one transform attribute are applied in the wrong order, as a doctest demands.",
)
prop(
    "C26", "Converted camera models project like the original",
    "A camera model converted from or to another software's model projects points the same, exactly where the conversion is documented as exact and within the reported residual otherwise; converting there and back is the identity; unchosen parameters stay untouched by optimisation.",
    ["configurations"],
    "All subsets of optional parameters for each foreign model, all image sizes and units in a small alphabet.",
    "Tests convert one example per model.",
    ["convert/converter.py"],
    [("Converter", "convert/converter.py:Converter")],
    MC, "exhaustive configuration enumeration with projection comparison",
    "Small grids of image points; distortion small enough to be inverted.",
)
prop(
    "C27", "EXIF metadata round trips through files and thumbnails",
    "Metadata read from a photograph (capture time with sub-seconds, focal length, exposure, size, make) equals what was recorded, writing it to another image and reading it back restores it, and missing or malformed tags give missing values rather than errors. Groups and tags which do not exist are refused, and the file is left as it was.",
    ["inputs"],
    "All subsets of tags present/absent, boundary sub-second strings of length 0-6, rationals including zero denominators.",
    "Tests read one photograph.",
    ["exif.py"],
    [("Exif", "exif.py:Exif")],
    MC, "exhaustive tag-configuration enumeration on real JPEG files",
    "JPEG only.",
)
prop(
    "C28", "Saved data is restored, and a crash while saving never loses it",
    "Writing data to a file and reading it back restores it for every supported nesting and formatting option, and the written text is valid. "
    "A crash at any point of saving a binary data file leaves the previous complete file or the new complete file under its name, never a partial one.",
    ["inputs", "crash_points"],
    "All JSON trees up to depth 3 over a small alphabet with every formatting option; every write/flush/rename boundary and byte-prefix of a binary save over an existing or absent file.",
    "Tests save one structure and never crash.",
    ["helpers.py"],
    [("write_json / read_json / write_pickle / read_pickle", "helpers.py")],
    MC, "exhaustive enumeration of data trees and crash points on the real functions",
    "A crash keeps any prefix of unflushed bytes.",
)
prop(
    "C29", "Track summaries report exactly the valid part of each track",
    "For every pattern of missing estimates, the end points of tracks are the first and last valid times of exactly the tracks that have any, success is reported for exactly the tracks without error, and standard deviations are the same whether tracking stored deviations or covariances.",
    ["inputs"],
    "All missing-value patterns of up to 4 tracks x 4 times, all index selections, all error patterns.",
    "Tests use complete tracks.",
    ["track/tracks.py"],
    [("Tracks.endpoints/success/xyz_sigma", "track/tracks.py:Tracks")],
    MC, "exhaustive pattern enumeration against a per-track scan",
    "Plot functions are only required not to fail for these patterns.",
)
prop(
    "C30", "Tile sampling and matching are centred where they claim",
    "A tile box has the requested size, is whole-pixel, inside the image and centred within half a pixel of the requested point whenever it fits; shifting a tile samples it at the shifted positions without changing the input; sampling a tile at coordinates of its cells returns the cell values for every box scale.",
    ["inputs"],
    "All box sizes and centre offsets on a quarter-pixel lattice, all shifts in the half-pixel range, all tile shapes and number types, all box scales.",
    "Half-pixel errors survive tests with symmetric tiles.",
    ["track/observer.py", "raster.py"],
    [("Observer.tile_box/shift_tile/sample_tile", "track/observer.py:Observer")],
    MC, "exhaustive lattice enumeration against exact cell geometry",
    "Linear test patterns, for which the splines are exact.",
)
prop(
    "C31", "Painted shapes and derived surfaces follow map coordinates",
    "Points, polygons (with holes) and circles given in map coordinates are painted into exactly the raster cells they contain (circles to within a cell), gradients and hillshades follow map directions, and the bounds of data and crops to them keep every value at its coordinates, whatever the direction of the axes and the array's number type. "
    "Maximum and Gaussian filters with a mask never let an excluded cell influence an included one, and change excluded cells only when asked to fill them.",
    ["inputs", "configurations"],
    "All assignments of up to 3-4 points to cells, all sets of up to 2-3 polygons and holes from a menu, circles of every radius centred inside and outside, planes and pyramids with every light direction, all masks of small rasters and several number types; every axis direction.",
    "Tests use one default raster (unit cells, both axes increasing); flipped axes, masks and integer arrays are combinations they do not visit.",
    ["raster.py", "helpers.py"],
    [("Raster.rasterize/rasterize_polygons/fill_circle/gradient/hillshade/crop_to_data/fill_crevasses", "raster.py:Raster"), ("maximum_filter / gaussian_filter", "helpers.py")],
    MC, "exhaustive small-scope enumeration against exact cell geometry and naive filters",
    "Circles on square cells only.",
)

prop(
    "C32", "Particles are weighted by how well the image around them fits",
    "The likelihood of a particle for an image is that of the mean squared difference between the observer's template and the equally prepared image window displaced with the particle from where the template was taken, scaled by the observer's uncertainty, for every particle however the particles are spread and however off-center the template is. "
    "Likelihoods of observers and motion model multiply into the weights, absent ones are neutral, and an observer is skipped when windows leave its image and never when they are well inside.",
    ["inputs", "configurations"],
    "16 subpixel template positions x 3-6 template sizes x image kinds (float, color, two observers) x interpolation orders x about 25 sets of particles (whole-pixel lattices, quarter pixels, up to and beyond the image edge), every particle compared.",
    "No test runs the tracker; an offset of half a pixel or one window biases every velocity and still tracks.",
    ["track/tracker.py", "track/observer.py"],
    [("template matching", "track/tracker.py:Tracker.compute_observer_log_likelihoods"), ("template", "track/tracker.py:Tracker.initialize_template"), ("weights", "track/tracker.py:Tracker.update_weights")],
    MC, "exhaustive small-scope enumeration of particle sets on the real tracker against direct window differences",
    "Between whole pixels only bilinear interpolation is compared. The extent of the search region is recorded, not prescribed.",
)

prop(
    "C33", "Keypoint matching returns the nearest descriptors",
    "Matching the keypoints of two images pairs each keypoint of the first with the nearest descriptor of the second, in order and at most once, and returns the image coordinates of both and, on request, the ratio of the distances to the nearest and second nearest (the larger of both directions when cross-checked). "
    "Only pairs which pass the ratio, distance, cross-check and mask criteria are returned, and no pair which passes them is lost, down to images with one keypoint or none. "
    "Keypoints are detected only where a mask allows, and are otherwise those of the whole image.",
    ["inputs", "configurations"],
    "All sets of up to 3 (thorough 4) one-dimensional descriptors with ties against each other x cross-check x ratio x distance limits x matchers; all masks of pairs for up to 2 x 3 keypoints; all quadrant masks of 3 synthetic images; all shifts of an image by up to 9 pixels (every third in quick).",
    "Tests match one pair of similar images and check nothing about each pair.",
    ["optimize.py"],
    [("match_keypoints", "optimize.py:match_keypoints"), ("detect_keypoints", "optimize.py:detect_keypoints")],
    MC, "exhaustive small-scope enumeration of descriptor sets and options on the real matcher against brute force",
    "OpenCV detects keypoints and computes distances; its random generator is seeded. Ties may be broken either way.",
)

prop(
    "C34", "Control points and lines measure how far the camera is off",
    "Control points are compared with where the camera, as it now is, sees their world coordinates, and refuse a moved camera if these are directions. Each point of image lines is compared with the nearest point in view of the world lines, which is on a world line and no farther than the sampling density allows than any other. "
    "Selections of points give the corresponding rows. Resizing the camera through any of the controls which share it, or by itself, keeps or restores the relation of image coordinates to the camera, and plotted errors lead from observed to predicted coordinates.",
    ["configurations", "histories"],
    "6 cameras (turned, uneven, distorted) x all sets of up to two of 12 world lines x directions x 3 densities x a lattice of image points; every subset of 6 points x changes of the camera; all sequences of 3 (thorough 4) of 11 resizes of four controls; all selections to plot.",
    "Tests have one straight line and one camera.",
    ["optimize.py", "helpers.py"],
    [("Points", "optimize.py:Points"), ("Lines", "optimize.py:Lines"), ("Matches.resize", "optimize.py:Matches")],
    MC, "exhaustive configuration and history enumeration on real controls against densely projected world lines",
    "World segments which cross the view without a vertex in it are excluded, as documented.",
)
prop(
    "C35", "Photographs know their camera and project into others",
    "The camera of an image has the given parameters, supplemented by those which its metadata provides, and is refused if any is missing or contradictory; metadata is not read if it is not needed. "
    "An image projected into another camera at the same position has, at every pixel, the value (interpolated or nearest) of where the original camera sees it, and is missing where the original camera does not see; images are drawn in image coordinates.",
    ["configurations", "inputs"],
    "All sets of 9 kinds of camera parameters (quick: with at most one of the last five) x all subsets of metadata x sources; 4 source cameras x 15 target cameras x images of 1 and 3 bands x types x methods, every pixel compared.",
    "A doctest projects a photograph without looking at the result.",
    ["image.py", "camera.py"],
    [("Image.__init__", "image.py:Image"), ("Image.project", "image.py:Image.project")],
    MC, "exhaustive configuration enumeration on real files against a reference camera and interpolation",
    "Integer images are compared to one level; pixels within a millionth of the edge are excluded.",
)
prop(
    "C36", "Every frame of an animation shows the pixels around the point",
    "Whichever frames are drawn, in any order, each shows exactly the pixels of its image in a box of the requested size around where its camera sees the point (cut at the edges of the image, and blank outside), drawn at their image coordinates and marked at the point, with the track so far and the name of the image. "
    "Tiles and boxes are drawn where they are, and cached images are exactly those selected.",
    ["configurations", "histories"],
    "5 sequences of turning cameras (of images of one size, and of different sizes) x 7 points x 6 tile sizes x choices of frames (as lists, arrays, tuples) x bands, each frame drawn forwards and backwards.",
    "No test draws an animation.",
    ["track/observer.py"],
    [("Observer.animate / track", "track/observer.py:Observer.animate"), ("plot_tile, plot_box", "track/observer.py:Observer.plot_tile")],
    MC, "exhaustive configuration enumeration on real animations against the pixels of the images",
    "Frames are drawn through the update function of the animation. Initial tiles which reach beyond the image are refused.",
)
prop(
    "C37", "Lists, names, ranges and scales are completed as documented",
    "Settings given once or partly are repeated, padded or cut to the required length and converted to the required type, or refused when they do not fit; names of files lose exactly the requested extensions and directories; ranges of datetimes include every step up to the end; distances between times do not depend on their origin. "
    "A scale is found for every image size which some scale rounds to, reaches it, is exact whenever it can be, and is not found for any other size; exactly the controls of the chosen cameras are kept; and the limits of number types are theirs.",
    ["inputs"],
    "All lists of a small alphabet as lists, tuples, arrays, iterators and scalars x lengths up to 7 (thorough 12) x defaults x types; all paths of up to 6-7 characters of a 4-letter alphabet; all ranges of up to 12-24 steps in 5 units; all pairs of image sizes up to 14-24 pixels; all lists of up to 3-4 controls; all number types.",
    "Tests have one example of each.",
    ["helpers.py", "optimize.py"],
    [("format_list / strip_path / datetime_range / get_scale_from_size", "helpers.py:format_list"), ("prune_controls", "optimize.py:Cameras.prune_controls")],
    MC, "exhaustive enumeration of small arguments against reference functions in exact arithmetic",
    "Only documented kinds of arguments are given.",
)
prop(
    "C38", "Options left out are those documented, and options given are used",
    "A call without an option does what the same call with the documented default does, whichever other options are given, by name or by position in the documented order; and the alternatives of an option are used, whichever other options are left out. "
    "This holds for every constructor, method and function of the library with options.",
    ["inputs", "operation sequences"],
    "200 calls which cover every public constructor, method and function with options, each with every subset of the options at their documented defaults (for more than five options in the quick tier: none, one, all but one and all of them; thorough: every subset of up to eight), with every number of options by position, and with every alternative value of every option and every such subset of the other options.",
    "Tests pass one combination of options, and mostly give those whose default would matter.",
    ["camera.py", "exif.py", "helpers.py", "image.py", "optimize.py", "raster.py", "svg.py", "track/motion.py", "track/observer.py", "track/tracker.py", "track/tracks.py", "convert/converter.py"],
    [("the signatures of all modules", "camera.py:Camera.__init__"), ("options passed on", "track/tracker.py:Tracker.track")],
    MC, "exhaustive enumeration of the sets of options given to the real calls, compared with each other",
    "Parallel calls are those of C01 and C21; the default matcher (approximate) is replaced by the exact one.",
)


NOT_APPLICABLE = {}


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            anchors = {"files": p["files"], "mechanism": p["mechanism"]}
            if p["state"]:
                anchors["state"] = p["state"]
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            anchors["hook_needed"] = None
            fp.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": anchors,
            }) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["id"]
        if not os.path.exists(os.path.join(HERE, "checks", f"{pid}.py")):
            na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "No check has been built yet.")})
            continue
        checks.append({
            "property": pid,
            "quick_cmd": f"bash run.sh {pid} quick",
            "thorough_cmd": f"bash run.sh {pid} thorough",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        })
    manifest = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(manifest, fp, indent=1)
        fp.write("\n")
    print(len(checks), "checks;", len(na), "not claimed")


if __name__ == "__main__":
    main()
