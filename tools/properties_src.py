"""Source of /verif/properties.jsonl:  python3 tools/properties_src.py > properties.jsonl"""
import json

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["include/" + f for f in files],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))


NOT = "No existing test touches it (the only suites that run are unit-algebra and rotation checks); "

p("P01", "Names in a scene are unique per kind and always resolve to their object",
  "Within one scene every named object of a kind has a non-empty name no other object of that kind carries; a requested name that is taken gets the first free numeric suffix, and re-requesting an object's own current name leaves it unchanged. "
  "Looking up a name returns exactly the object that currently carries it, and names freed by renaming or deletion become available again. "
  "Listing the names lists exactly the live objects, and looking up an unknown name is an error.",
  ["histories"], "every sequence of additions, renames (including to taken, own, suffixed and freed names), deletions and lookups",
  NOT + "a collision, a rename chain or a reuse after deletion depends on the whole history of names.",
  ["huira_impl/scene/name_registry.ipp", "huira_impl/scene/scene.ipp"],
  [("registry with reverse map and suffixing", "include/huira_impl/scene/name_registry.ipp")],
  ["Scene::list_names", "Scene::get_*", "NameRegistry::add/remove/set_name/lookup"])

p("P02", "A handle is usable exactly while the object it names is in the scene",
  "A handle to a scene object or node reports itself valid and can be used exactly as long as the object has not been deleted, directly or together with a parent; afterwards every use is reported as an error and never touches freed memory. "
  "Every copy of a handle behaves identically, and a default or foreign handle cannot be placed, deleted or built upon and changes nothing.",
  ["histories"], "every sequence of creating, copying, using and deleting objects, frames, instances and their ancestors",
  NOT + "dangling use needs a particular delete-then-use history.",
  ["huira/handles/handle.hpp", "huira_impl/handles/handle.ipp", "huira_impl/scene/scene.ipp", "huira_impl/scene/frame_node.ipp", "huira/scene/scene_object.hpp"],
  [("weak reference locked on each use, plus scene-ownership flag", "include/huira_impl/handles/handle.ipp")],
  ["Handle::valid", "any handle method"])

p("P03", "Deleting from a scene removes the object and its dependents, nothing else",
  "Deleting an object removes it and every placement of it anywhere in the scene tree; deleting a placement or frame removes it and everything below it; no other object, placement or frame is lost or altered. "
  "A deletion that is refused leaves the scene unchanged, and every valid deletion succeeds.",
  ["histories"], "every history of building a tree of frames and instances of lights, primitives, models, unresolved objects and cameras, then deleting in any order",
  NOT + "what has to disappear depends on the shape of the tree and the order of earlier edits.",
  ["huira_impl/scene/scene.ipp", "huira_impl/scene/frame_node.ipp", "huira_impl/scene/node.ipp"],
  [("prune of references and child deletion", "include/huira_impl/scene/scene.ipp")],
  ["Scene::delete_*", "FrameHandle::delete_*", "Scene::get_*", "scene listings"])

p("P04", "Ephemeris-driven nodes only hang below ephemeris-driven parents",
  "In every reachable scene tree a node whose position (or orientation) is taken from an ephemeris has a parent whose position (or orientation) also is, up to the root. "
  "A setting that would break this is rejected and leaves both node and tree as they were, and otherwise the last accepted setting is the one in effect when the scene is evaluated.",
  ["histories"], "every interleaving of constant, ephemeris, orbit and callback settings of position, orientation, velocity and rates on parents and children, and of node creation",
  NOT + "the rule spans two nodes and depends on the order in which they were configured.",
  ["huira_impl/scene/node.ipp", "huira/scene/node.hpp", "huira_impl/handles/scene/node_handle.ipp", "huira_impl/scene/frame_node.ipp"],
  [("mode fields with parent/child checks in each setter", "include/huira_impl/scene/node.ipp")],
  ["NodeHandle setters/getters", "node world pose"])

p("P05", "A node's world pose is the composition of the poses above it",
  "Composing poses (uneven scales only at the last one, as a pose has no shear) is associative, has the identity, agrees with applying them one after the other to points and directions, and with the matrix form; the inverse undoes a pose in position, orientation, scale and velocity. "
  "A node's world pose at any time is the composition of its ancestors' poses at that time, whatever mixture of constant and time-driven settings defines them.",
  ["inputs", "histories"], "all rigid poses with uniform scale and linear/angular velocity, and trees of them at every time",
  "Existing tests cover single rotations on fixed vectors; composition order, velocity transport and deep chains are never exercised.",
  ["huira_impl/core/transform.ipp", "huira_impl/core/rotation.ipp", "huira_impl/scene/node.ipp"],
  [("pose product and inverse", "include/huira_impl/core/transform.ipp"), ("parent-chain walk", "include/huira_impl/scene/node.ipp")],
  ["Transform operators", "node world pose accessors"])

p("P06", "A frozen scene view shows exactly the scene as it was when it was built",
  "A view built for an exposure contains one entry for each placement reachable from the root, posed at that exposure's sample times relative to the observing camera, and nothing else; a ray sees each object where it is at the ray's own time. "
  "Later edits to the scene (placing, moving or removing, new or dropped objects), or building further views, never change what an existing view shows.",
  ["histories"], "every scene tree, every set of sample times, and every history of edits and further views after the view was built",
  NOT + "the whole scene module is outside the current build, and aliasing only shows after a later edit.",
  ["huira_impl/scene/scene_view.ipp", "huira/scene/scene_view.hpp", "huira/assets/unresolved/unresolved_object.hpp"],
  [("recursive traversal collecting placements with time samples", "include/huira_impl/scene/scene_view.ipp")],
  ["SceneView contents", "rendered frames"])

p("P07", "The log history holds exactly the most recent accepted messages, in order",
  "The recent-message history contains, oldest first, exactly the last N accepted messages for the current capacity N (at least one); changing the capacity keeps the newest messages that fit, in order. "
  "A dump writes exactly that history with severities to the requested file, or to the fallback location when that cannot be written, and returns the path it wrote, or writes nothing and says so.",
  ["histories"], "every interleaving of messages at all severities, threshold changes, capacity changes (0, 1, shrinking, growing, after wrap-around) and dumps",
  NOT + "wrap-around and resizing interact over long histories.",
  ["huira_impl/util/logger.ipp", "huira/util/logger.hpp"],
  [("ring buffer with monotonically growing write index", "include/huira_impl/util/logger.ipp")],
  ["Logger::dump_to_file"])

p("P08", "Concurrent logging neither loses, duplicates nor tears messages",
  "When several threads log at once, while others change the capacity, threshold or sink or dump the history, every accepted message reaches the sink exactly once with its own severity and text, and the final history is the tail of one total order consistent with each thread's order. "
  "No interleaving crashes, deadlocks or mixes the contents of two messages.",
  ["schedules"], "every interleaving of log, capacity, threshold, sink and dump calls from any number of threads",
  NOT + "data races show only under particular schedules.",
  ["huira_impl/util/logger.ipp", "huira/util/logger.hpp"],
  [("logger-wide lock / atomics around the ring buffer", "include/huira_impl/util/logger.ipp")],
  ["sink callback", "Logger::dump_to_file"])

p("P09", "Severity threshold and sinks decide exactly which messages go where",
  "A message is recorded and passed to the sink if and only if its severity is at or above the current threshold, and a replaced or removed sink sees no further messages. "
  "The console shows an accepted message exactly when the channel of its severity is enabled, where enabling a more verbose channel enables the less verbose ones and disabling a less verbose one disables the more verbose ones. "
  "A failing sink neither loses the message from the history nor disturbs the caller.",
  ["histories", "fault_sequences"], "every sequence of threshold, sink, console-switch and log calls, with sinks that throw",
  NOT + "the switches interact through their history.",
  ["huira_impl/util/logger.ipp", "huira/util/logger.hpp"],
  [("level filter, console switches, sink dispatch", "include/huira_impl/util/logger.ipp")],
  ["sink callback", "stdout/stderr", "Logger::dump_to_file"])

p("P10", "A fatal crash is reported at most once, with the history intact",
  "When the process terminates through a fatal signal or an unhandled exception with crash handling enabled, exactly one report containing the complete recorded history and the cause is written, and the process still ends by that cause; with handling disabled it ends the same way and writes no report. "
  "A second failure during reporting does not produce a second report or hang.",
  ["crash_points", "fault_sequences"], "every kind of fatal cause, at every point of a logging history, with handling enabled, disabled and re-enabled, and with repeated failures",
  NOT + "crash paths cannot be exercised inside a unit test process.",
  ["huira_impl/util/logger.ipp", "huira/util/logger.hpp", "huira_impl/platform/get_log_path.ipp"],
  [("signal and terminate handlers guarded by a once flag", "include/huira_impl/util/logger.ipp")],
  ["exit status of the process", "report file in the log directory"])

p("P11", "A path knows which participating medium it is inside",
  "After any sequence of boundary crossings nested up to the supported depth the current medium is the most recently entered one that has not been left, and outside every medium it is vacuum; leaving a medium that is not the most recent one removes exactly that medium. "
  "Beyond the supported depth further entries are ignored without disturbing the media already recorded; crossing the same boundary twice in a row otherwise restores the previous situation.",
  ["histories"], "every sequence of enter and leave events over several, possibly overlapping, media up to and beyond the nesting capacity",
  NOT + "overlap order and overflow need multi-step crossing histories.",
  ["huira/volumes/medium_stack.hpp"],
  [("fixed-capacity stack with toggle on crossing", "include/huira/volumes/medium_stack.hpp")],
  ["MediumStack::top"])

p("P12", "Frame-buffer outputs are independent, correctly sized and cleared together",
  "Each output channel of a frame buffer exists exactly while it is enabled, always has the buffer's resolution, and enabling, disabling or writing one channel never affects another, except that enabling the sensor response also enables the received power it is computed from. "
  "Clearing resets every enabled channel to its empty value, and reading a disabled channel never yields another channel's data.",
  ["histories"], "every sequence of enabling, disabling, writing and clearing channels at any resolution",
  NOT + "aliasing between channels shows only for particular combinations of switches.",
  ["huira/render/frame_buffer.hpp"],
  [("one optional image per channel", "include/huira/render/frame_buffer.hpp")],
  ["FrameBuffer channel accessors"])

p("P13", "A camera behaves according to its final settings, not their order",
  "After any sequence of configuration calls, projection, ray casting, field of view, pixel solid angle, image blur and depth-of-field behaviour are exactly those of a fresh camera given the same final settings. "
  "A rejected setting throws and changes nothing.",
  ["histories"], "every order and repetition of lens, sensor, intrinsics, aperture, focus, distortion, blur and convention settings, including invalid ones",
  NOT + "stale cached values appear only for specific call orders.",
  ["huira_impl/cameras/camera_model.ipp", "huira/cameras/camera_model.hpp", "huira_impl/handles/camera_handle.ipp"],
  [("setters that refresh derived tables", "include/huira_impl/cameras/camera_model.ipp")],
  ["CameraModel/CameraHandle getters", "project_point", "cast_ray"])

p("P14", "Projection and ray casting are inverse and agree with the field of view",
  "For every camera, casting a ray through a pixel position and projecting any point on that ray returns the same pixel position, with and without lens distortion and in either axis convention. "
  "Points behind the camera do not project, and the corners of the sensor lie on the edge of the reported field of view.",
  ["inputs", "configurations"], "all focal lengths, principal points, resolutions, skews, distortion models with valid coefficients, axis conventions and pixel positions",
  NOT + "sign and axis errors only show for asymmetric configurations.",
  ["huira_impl/cameras/camera_model.ipp", "huira_impl/cameras/distortion/brown_distortion.ipp", "huira_impl/cameras/distortion/opencv_distortion.ipp", "huira_impl/cameras/distortion/owen_distortion.ipp"],
  [("pinhole model, distort/undistort pairs", "include/huira_impl/cameras/camera_model.ipp")],
  ["project_point", "cast_ray"])

p("P15", "Sensor read-out is a bounded, monotone function of received power",
  "With noise disabled the read-out of a pixel is the received power turned into electrons by exposure and efficiency, limited by the full well, divided by the gain and clipped to the sensor's full-scale range: it never leaves that range, never decreases when more light is received, and never depends on other pixels; with noise enabled it stays in that range too and scatters around the same value with dark current and bias added. Reading out changes nothing but the response. "
  "Sensor settings outside their physical range are rejected and leave the sensor unchanged.",
  ["inputs", "configurations"], "all powers including zero and saturation, exposure times, gains, bit depths, well capacities, biases and noise levels",
  NOT + "saturation and clipping boundaries need extreme inputs.",
  ["huira_impl/cameras/sensors/simple_sensor.ipp", "huira_impl/cameras/sensors/sensor_model.ipp"],
  [("photon to digital-number conversion with clamping", "include/huira_impl/cameras/sensors/simple_sensor.ipp")],
  ["SensorModel::readout", "sensor setters"])

p("P16", "Image access is bounds-checked and sampling follows the wrap mode",
  "Checked access to an image reaches exactly the pixel at that column and row and rejects every coordinate outside the image, negative ones included, without touching memory outside it. "
  "Resampling at any position, for each wrap mode, equals the nearest or bilinear value of the image extended by clamping, repeating or mirroring; copies are independent of their source.",
  ["inputs", "histories"], "all image sizes including one-pixel and empty ones, all coordinates including negative and far outside, all wrap and filter modes, and copy, move and resize histories",
  NOT + "edge, wrap and aliasing behaviour live at the borders of the input space.",
  ["huira/images/image.hpp", "huira_impl/images/image.ipp"],
  [("row-major storage with checked accessors and wrap functions", "include/huira_impl/images/image.ipp")],
  ["Image::at", "Image::sample_*"])

p("P17", "Convolution gives the same result whichever algorithm is used",
  "Convolving an image with a kernel yields the mathematical convolution with zero padding and the kernel's centre on the pixel, of the image's own size, whatever the kernel's size, shape or symmetry. "
  "Results of the direct and transform-based paths agree up to rounding.",
  ["inputs"], "all image and kernel sizes (odd, even, larger than the image, 1xN) and asymmetric contents",
  NOT + "the switch between algorithms happens at one kernel size, and symmetric kernels hide flips.",
  ["huira_impl/images/image.ipp"],
  [("direct/FFT convolution selected by kernel size", "include/huira_impl/images/image.ipp")],
  ["Image::convolve"])

p("P18", "Simple image decoders return the declared picture or reject the file",
  "For every byte sequence, reading it as BMP, TGA or Radiance HDR either returns an image whose size, orientation and pixel values are what the format defines for those bytes, or reports an error. "
  "Truncated, corrupt or hostile headers and data never cause access outside the input or output, unbounded allocation, or a silently wrong picture.",
  ["inputs", "fault_sequences"], "all byte sequences: every header variant (palettes, run-length packets, orientations, depths) with truncation and corruption at any point",
  NOT + "malformed files are outside any hand-written sample.",
  ["huira_impl/images/io/bmp_io.ipp", "huira_impl/images/io/tga_io.ipp", "huira_impl/images/io/hdr_io.ipp"],
  [("header validation and bounded decode loops", "include/huira_impl/images/io/tga_io.ipp")],
  ["read_image_bmp/tga/hdr", "read_image"])

p("P19", "Lossless image files read back as they were written",
  "Writing an image to PNG, TIFF or FITS and reading it back yields the same size, orientation and pixel values up to the file's declared bit depth, for every supported pixel type and bit depth, and metadata written with it is read back. "
  "Values outside the representable range are clipped to it, and repeating write and read does not change the result further.",
  ["inputs", "configurations"], "all sizes, pixel types, bit depths, alpha combinations, extreme values and metadata sets",
  NOT + "a round trip depends on the combination of depth, type and metadata.",
  ["huira_impl/images/io/png_io.ipp", "huira_impl/images/io/tiff_io.ipp", "huira_impl/images/io/fits_io.ipp"],
  [("writer/reader pairs", "include/huira_impl/images/io/")],
  ["write_image_* / read_image_*"])

p("P20", "A star catalogue file reads back exactly the stars asked for",
  "Reading a catalogue that was written returns exactly the stars that have a magnitude, ordered from brightest to faintest with every field unchanged, and reading with a magnitude limit returns exactly those not fainter than the limit. "
  "A file that is truncated, of the wrong length, foreign or of another version is rejected rather than yielding wrong stars.",
  ["inputs", "crash_points"], "all star lists (empty, duplicates, undefined magnitudes), all limits including those equal to a star's magnitude, and truncation at every byte",
  NOT + "boundary magnitudes and truncation points are never sampled.",
  ["huira_impl/stars/io/star_catalog.ipp", "huira/stars/io/star_catalog.hpp"],
  [("sorted fixed-size records behind a header, binary search on magnitude", "include/huira_impl/stars/io/star_catalog.ipp")],
  ["StarCatalog::write_star_data/read_star_data"])

p("P21", "Each source-catalogue record is parsed on its own",
  "The star parsed from one line of a Tycho-2 file depends only on that line: fields it leaves blank are absent in the result whatever other lines contain, and a line that cannot be used yields no star. "
  "The number of stars read equals the number of usable lines, whether or not the file ends with a line break.",
  ["inputs", "histories"], "all files of complete, partial, supplementary and unusable records in any order, with and without a final line break",
  NOT + "leakage needs an incomplete record after a complete one.",
  ["huira_impl/stars/io/load_tycho2.ipp", "huira_impl/stars/io/star_data.ipp"],
  [("per-line field parser", "include/huira_impl/stars/io/load_tycho2.ipp")],
  ["read_tycho2_main / read_tycho2_suppl"])

p("P22", "Time values and intervals convert and divide consistently",
  "Every instant keeps its identity through conversion between time scales and representations, differences and offsets obey the usual arithmetic, and comparison follows the time line. "
  "Sampling an interval yields the requested number of instants inside it, the first at its start and the last at its end up to rounding (the centre for a single sample), and a sample count of zero is rejected.",
  ["inputs"], "all instants, time scales, durations, interval lengths and sample counts",
  NOT + "the module is outside the current build.",
  ["huira_impl/core/time.ipp", "huira/core/interval.hpp", "huira/core/time.hpp"],
  [("single internal time base with conversion at the edges", "include/huira_impl/core/time.ipp")],
  ["Time", "Interval"])

p("P23", "Every pixel is rendered once and independently of scheduling",
  "A render writes every pixel of every enabled output exactly once, for any resolution including ones that are not multiples of the work unit, and leaves nothing from a previous render; pixels that see no geometry keep empty values. "
  "Apart from simulated sensor noise, rendering the same frozen scene twice gives identical results, independent of the number of threads and their schedule.",
  ["schedules", "inputs"], "all resolutions, thread counts and schedules",
  NOT + "the renderer is outside the current test build, and irreproducibility needs particular schedules.",
  ["huira_impl/render/renderer.ipp"],
  [("tiles with per-tile random streams run in parallel", "include/huira_impl/render/renderer.ipp")],
  ["Renderer::render output"])

p("P24", "Point sources contribute their full light once, where they appear",
  "Each visible point-like source adds its blurred light to the image exactly once, at the position where the camera projects it, also when its blur spreads over several work units or past the image border, and the contributions of several sources add up; a moving source leaves on each pixel the share of the exposure it spends there. "
  "A source hidden by geometry or outside the view contributes nothing inside it.",
  ["inputs"], "all source positions including on work-unit and image borders, kernel sizes, and sets of sources",
  NOT + "double counting and loss happen only at internal boundaries.",
  ["huira_impl/render/renderer.ipp", "huira_impl/render/psf_lut.ipp"],
  [("binning of sources to tiles by kernel extent", "include/huira_impl/render/renderer.ipp")],
  ["Renderer::render output"])

p("P25", "View-volume tests and clipping keep exactly what is inside",
  "A point is reported inside a view volume if and only if it satisfies each of its bounding planes; clipping a triangle or a line yields exactly the part inside, with no area or length gained or lost. "
  "Shapes wholly inside are unchanged and shapes wholly outside vanish.",
  ["inputs"], "all view volumes and all triangles, segments and points, including those on or across planes and behind the camera",
  NOT + "degenerate and boundary positions are measure-zero for sampled tests.",
  ["huira_impl/render/frustum.ipp", "huira/render/frustum.hpp"],
  [("Sutherland-Hodgman clip against five planes", "include/huira_impl/render/frustum.ipp")],
  ["Frustum"])

p("P26", "Unit arithmetic is dimensionally and numerically consistent",
  "Converting a quantity between units of the same dimension and back returns it, converting through a third unit equals converting directly, and sums, differences, products, quotients and comparisons of quantities in different units equal the same operations on their base-unit values (units with an offset, Celsius and Fahrenheit, only convert, compare and enter products). "
  "The dimension of a product or quotient is the sum or difference of the dimensions, and not-a-number is rejected.",
  ["inputs", "programs"], "all pairs and triples of units including offset and angular ones, and all values",
  "Existing tests check single conversions of sample values; pairs, mixed expressions and offset units are not covered.",
  ["huira/units/quantity.hpp", "huira_impl/units/quantity.ipp", "huira/units/dimensionality.hpp", "huira/units/units.hpp"],
  [("compile-time ratios and tagged conversions through base units", "include/huira/units/quantity.hpp")],
  ["Quantity operators, as<>"])

p("P27", "Spectral binning conserves what it bins",
  "Reducing sampled spectral data to wavelength bins yields, per bin, the mean of the piecewise-linear curve over the part of the bin it covers (zero for a bin it does not touch), so refining the samples without changing the curve changes nothing and data outside a bin has no influence on it. "
  "Spreading a total over bins and summing returns the total, band integrals are additive over adjoining bands, and element-wise arithmetic acts on each bin alone.",
  ["inputs"], "all sample positions relative to bin edges, all bin layouts, totals and bands",
  NOT + "the cases are the orderings of samples and bin edges.",
  ["huira/core/spectral_bins.hpp", "huira_impl/core/spectral_bins.ipp"],
  [("trapezoid integration with interpolated edges", "include/huira_impl/core/spectral_bins.ipp")],
  ["SpectralBins static and arithmetic functions"])

p("P28", "Ephemeris-toolkit errors become exceptions and leave no trace",
  "Every error raised by the ephemeris toolkit surfaces as an exception carrying its message, and a later call that succeeds is unaffected by any earlier failure. "
  "The leap-second data is loaded before the first time conversion, exactly once, and loading is retried if it failed; loading a file relative to its own folder always restores the working directory.",
  ["fault_sequences", "histories"], "every sequence of successful and failing toolkit calls, including failures while loading",
  NOT + "the module is outside the current build, and error poisoning needs a failure followed by other calls.",
  ["huira_impl/core/spice.ipp", "huira/core/spice.hpp"],
  [("error-checked call wrapper, once-only kernel load", "include/huira_impl/core/spice.ipp")],
  ["spice:: functions"])

p("P29", "Material settings follow the last change and reset to defaults",
  "Each optical channel of a material evaluates to its factor times its texture as last set, resetting a channel restores its default and leaves the other channels untouched, and assigning a texture to a channel whose factor is zero makes the texture visible. "
  "A rejected assignment changes nothing.",
  ["histories"], "every sequence of setting textures and factors and resetting over all channels",
  NOT + "independence of channels needs interleaved histories.",
  ["huira_impl/materials/material.ipp", "huira/materials/material.hpp"],
  [("factor/texture pair per channel", "include/huira_impl/materials/material.ipp")],
  ["Material setters, evaluation"])

p("P30", "Data and log file locations resolve predictably",
  "The data directory is the last one set, a relative setting being taken relative to the program and not to the working directory, and the built-in default after a reset. "
  "A log report goes to the requested file name inside the configured log directory, else inside the working directory, and missing folders needed for an output file are created without touching anything else.",
  ["histories", "configurations"], "every sequence of set and reset with absolute and relative paths, working directories and environment settings",
  NOT + "resolution depends on process state that tests do not vary.",
  ["huira_impl/util/paths.ipp", "huira/util/paths.hpp", "huira_impl/platform/get_log_path.ipp"],
  [("override with fallback", "include/huira_impl/util/paths.ipp")],
  ["Paths", "get_log_file_path", "make_path"])

p("P31", "Orbits and star motion give the state of the requested epoch",
  "A body placed by orbital elements or a star with proper motion is, at every evaluation time, where its elements put it at that time, independent of which times were evaluated before. "
  "Replacing the star field or the observing epoch replaces all earlier star positions.",
  ["histories", "inputs"], "every sequence of epochs, catalogues and evaluation times",
  NOT + "the modules are outside the current build; caching errors need repeated evaluation.",
  ["huira_impl/stars/star.ipp", "huira_impl/scene/scene.ipp", "huira_impl/scene/scene_view.ipp"],
  [("epoch-dependent evaluation at view construction", "include/huira_impl/scene/scene_view.ipp")],
  ["SceneView star entries", "Star::get_direction"])

p("P32", "Meshes and ellipsoids are hit exactly where their geometry is",
  "A mesh reports the vertex and triangle counts of the buffers it was built from and rejects index lists that are not whole triangles or refer to missing vertices. "
  "A ray hits a placed mesh or ellipsoid exactly where its geometry is, at the nearest crossing, with the interpolated position, normal and texture position of that point, and the shading frame there is finite, unit length and perpendicular.",
  ["inputs"], "all vertex and index buffers, including degenerate and out-of-range ones, placements and rays",
  NOT + "degenerate buffers and grazing rays are never sampled.",
  ["huira_impl/geometry/mesh.ipp", "huira_impl/geometry/ellipsoid.ipp", "huira_impl/scene/scene_view.ipp"],
  [("buffer validation at construction", "include/huira_impl/geometry/mesh.ipp"), ("hit resolution", "include/huira_impl/scene/scene_view.ipp")],
  ["Mesh accessors", "SceneView::intersect, resolve_hit"])

p("P33", "Bodies appear where their light left them, shifted by the motion of observer",
  "Seen in its true state a body is where it is at the observation time; seen geometrically it is where it was when the light that arrives at the observation time left it, the observer's velocity playing no part; seen with aberration its direction is in addition turned towards the observer's motion exactly as relativity prescribes. "
  "The distance is the one the light travelled, directions never change length, and an observer at rest sees no aberration.",
  ["inputs"], "all positions, uniform motions and spins of bodies, parents and observers below the speed of light, in every observation mode",
  NOT + "light time and aberration vanish for the slow, near configurations a test would sample.",
  ["huira_impl/core/physics.ipp", "huira_impl/scene/node.ipp"],
  [("light-time iteration and aberration", "include/huira_impl/scene/node.ipp"), ("aberration formula", "include/huira_impl/core/physics.ipp")],
  ["Node::get_apparent_transform", "compute_aberrated_direction"])

p("P34", "Light is attenuated exactly by the matter it crosses",
  "What is left of light between two points is the product, colour by colour, of what each surface it crosses passes on and of the exponential decay over each stretch of the medium it travels in, which is that of the body entered last and not yet left. "
  "Bodies that hold no medium hold a vacuum, hulls with opacity 0 do not weaken light, lamps never cast a shadow, an opaque surface leaves nothing, matter beyond the end of the way does not count, and splitting a way into two changes nothing.",
  ["inputs"], "all arrangements of nested, overlapping, separate and moving bodies, media and surfaces, all ways through them and all starting points within them",
  NOT + "the medium in force depends on the history of crossings, wrong only for some nesting orders.",
  ["huira_impl/scene/scene_view.ipp", "huira/volumes/medium_stack.hpp", "huira/volumes/medium.hpp"],
  [("walk over the crossings", "include/huira_impl/scene/scene_view.ipp"), ("which medium is in force", "include/huira/volumes/medium_stack.hpp")],
  ["SceneView::evaluate_transmittance", "MediumStack::toggle"])

p("P35", "Lamps and unresolved bodies are as bright as their power, size, distance and lighting make them",
  "A spherical lamp of some power brings to every place outside it that power spread over the sphere around it through that place, whatever its size, and a lamp of some radiance that radiance times the solid angle it fills; inside there is none. "
  "Sampling such a lamp, however far or near, gives directions spread evenly over its visible disc, with the density that belongs to them, the distance to its surface and its radiance. "
  "Total powers are shared out over the bands by their widths. Unresolved emitters follow the inverse square law, unresolved spheres reflect as Lambertian spheres and asteroids follow the IAU H-G system at every phase angle including full and new; "
  "negative light, albedos outside [0, 1], bodies without a size and instances that hold no light are refused and change nothing.",
  ["inputs"], "all powers, spectra, radii, positions of lamps, bodies and observers at any scale from centimetres to astronomical units",
  NOT + "brightness goes wrong only for unusual geometry: very distant lamps, exact opposition, places inside a lamp.",
  ["huira_impl/assets/lights/sphere_light.ipp", "huira_impl/assets/unresolved/"],
  [("lamps and their sampling", "include/huira_impl/assets/lights/sphere_light.ipp"), ("unresolved spheres", "include/huira_impl/assets/unresolved/unresolved_sphere.ipp"),
   ("unresolved asteroids", "include/huira_impl/assets/unresolved/unresolved_asteroid.ipp"), ("unresolved emitters", "include/huira_impl/assets/unresolved/unresolved_emitter.ipp")],
  ["SphereLight::irradiance_at", "SphereLight::sample_li", "UnresolvedObject::get_irradiance"])

for r in P:
    print(json.dumps(r, ensure_ascii=True))
