"""Writes properties.jsonl and MANIFEST.json from the table below.

The claimed properties are those registered in sa/props."""
import json, sys
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT)); sys.path.insert(0, str(ROOT / "tools"))
S = "src/synthpix/"
P = []


def prop(pid, title, statement, over, qtext, tests, files, mech, state=(), observe=(), na=None):
    assert len(title) <= 80, (pid, len(title))
    assert statement.count(". ") <= 2, pid
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=tests,
                  anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None), na=na))


I, H, C, SC, F, CP = "inputs", "histories", "configurations", "schedules", "fault_sequences", "crash_points"

prop("P01", "Interpolation is exact at grid nodes and never leaves the cell's value range",
     "Bilinear and trilinear interpolation return the convex combination of the corner samples of the cell that contains the query point, with weights given by the fractional coordinates. At integer coordinates they return the stored sample, and coordinates outside of the array never read out of bounds (bilinear clamps to the border).",
     [I], "every image/volume, every shape and every real-valued coordinate", "tests sample a few points of small arrays",
     [S + "utils.py"], [("bilinear_interpolate", S + "utils.py"), ("trilinear_interpolate", S + "utils.py")], observe=["return value"])
prop("P02", "Particles move by exactly velocity * dt at their own position",
     "The displaced position of every particle is its position plus the flow velocity interpolated at that position, times the time step, converted from length units to grid steps per axis (x with the x resolution, y with the y resolution). A zero flow or zero time step leaves every particle where it is, and particle order and count are preserved.",
     [I], "every particle position, flow field, resolution and dt, in 2D and 3D", "tests check constant flows and a few positions; axis and unit mix-ups cancel on square/isotropic inputs",
     [S + "apply.py"], [("apply_flow_to_particles", S + "apply.py")], observe=["return value"])
prop("P03", "Warping an image moves it by flow * dt, in both mapping directions",
     "The backward warp evaluates, at every output pixel, the image interpolated at the pixel displaced backward by the flow of that pixel times dt; the forward warp adds every pixel's value, split bilinearly over its four neighbours, to the location displaced forward, dropping what leaves the image. The x component moves columns and the y component rows, and a zero flow reproduces the image.",
     [I], "every image, flow and dt; both directions", "tests use a few synthetic flows",
     [S + "apply.py"], [("apply_flow_to_image_forward / _backward", S + "apply.py")], observe=["return value"])
prop("P04", "Flow adapter resamples the right window and converts units once",
     "The returned flow fields are the input flow sampled on the window covered by the image (and, for the second output, by the position bounds), y with the y resolution and offsets and x with the x ones, cyclically repeated to the batch size. Requesting pixels multiplies both components by resolution times dt exactly once; requesting measure units leaves them unchanged.",
     [I, C], "every flow batch, shape, offset, resolution, padding, dt, unit and batch size", "tests use square fields, unit resolutions and small offsets",
     [S + "utils.py"], [("flow_field_adapter", S + "utils.py")], observe=["return value"])
prop("P05", "Every sample is paired with the flow, mask and file it was generated from",
     "In every batch of synthetic data, sample k's flow field, validity mask entry and source file all belong to the same flow field that moved the particles of sample k's images. This holds for every number of flow fields per batch, batch size and number of devices.",
     [I, C], "every batch size, number of flow fields per batch and device count", "tests run one device and small batches and compare shapes",
     [S + "sampler/synthetic.py", S + "data_generate.py", S + "utils.py"],
     [("generate_images_from_flow flow selection", S + "data_generate.py"), ("flow_field_adapter tiling", S + "utils.py"), ("SyntheticImageSampler batch assembly", S + "sampler/synthetic.py")], observe=["yielded batch"])
prop("P06", "Random keys are never reused: independent draws, samples, devices and batches",
     "Every random quantity of a generated batch is drawn from its own key, derived from the key that was passed in; no key feeds two draws. Different samples, different devices and successive batches of one sampler use different keys.",
     [I, H], "every seed, batch size, number of devices and length of run", "reuse shows up only as statistical correlation, which no unit test samples",
     [S + "data_generate.py", S + "generate.py", S + "sampler/synthetic.py", S + "make.py"],
     [("key splitting and folding", S + "data_generate.py"), ("sampler key advance", S + "sampler/synthetic.py")], observe=["key data flow"])
prop("P07", "Same configuration and seed give the same data",
     "Everything a sampler yields is a function of its configuration, the files on disk and the seed: no wall clock, process-dependent hash order, directory-listing order, global random state or object identity influences the data or its order.",
     [H, C], "every configuration, seed, process and file system", "tests run in one process on one file system",
     [S, "scripts"], [("seeded keys", S + "sampler/synthetic.py"), ("sorted listings", S + "scheduler/base.py")], observe=["sources of nondeterminism reachable from the public API"])
prop("P08", "Generated images stay within [0, 255]",
     "Every pixel of every generated image lies within 0 and 255, whatever the particle intensities, overlaps, noise, mask and histogram.",
     [I, C], "every specification, key, noise level, mask and histogram", "tests sample a handful of keys and mild noise",
     [S + "data_generate.py", S + "generate.py"], [("clipping after noise", S + "generate.py")], observe=["generated images"])
prop("P09", "Particle parameters stay in the requested ranges and are reported as used",
     "Diameters, intensities and correlation coefficients used to render both frames lie within the one requested range selected for that sample, and seeding densities within the requested density range. The parameters reported with a batch are exactly those that were used for each sample, and the number of visible particles is the seeding density times the area in which particles are placed.",
     [I, C], "every specification and key, including several ranges and large variances", "tests look at a few samples with one range",
     [S + "data_generate.py"], [("generate_images_from_flow", S + "data_generate.py")], observe=["rendered parameters", "reported parameters"])
prop("P10", "Both frames of a pair show the same particles, one displaced by the flow",
     "The second frame renders the same particle population as the first one, each particle at the position where the flow takes it after dt, with the same crop window; only the requested jitter of size, brightness and correlation, the requested hiding and noise differ. A particle is hidden independently in each frame with the probability requested for that frame.",
     [I, C], "every flow, specification and key", "tests compare images for a few flows only",
     [S + "data_generate.py"], [("generate_images_from_flow", S + "data_generate.py")], observe=["rendering calls of both frames"])
prop("P11", "Masked pixels are zero in both frames",
     "When a mask is given and no histogram is requested, every pixel where the mask is zero is exactly zero in both frames of every pair, and pixels where it is one are what they would be without the mask. Without a mask nothing is blanked.",
     [I, C], "every mask, specification and key", "tests use one mask",
     [S + "data_generate.py"], [("mask application after noise", S + "data_generate.py")], observe=["generated images"])
prop("P12", "Each particle is rendered as its Gaussian, centred where the particle is",
     "A particle contributes amplitude * exp(-(dx^2/sx^2 + dy^2/sy^2 - 2 rho dx dy/(sx sy)) / (2 (1 - rho^2))) with sigma = diameter / 2, at every pixel of a square patch, once each, that reaches at least floor(1.5 * largest diameter) pixels in each direction from the pixel the particle is in, and nothing elsewhere. Contributions of overlapping particles add up on a black image of the requested shape, which is then bounded to [0, 255] when clipping is asked for. No patch is written outside of the rendered area (provided the area is at least one patch large): a particle too close to a border is rendered at the nearest position where its patch fits.",
     [I], "every particle position, diameter, correlation and image size", "tests compare a few isolated particles",
     [S + "generate.py"], [("img_gen_from_data", S + "generate.py"), ("gaussian_2d_correlated", S + "generate.py")], observe=["scatter coordinates and values"])
prop("P13", "Histogram matching maps intensities monotonically onto the target's levels",
     "Histogram matching replaces each pixel by the smallest level whose cumulative target frequency reaches the pixel's cumulative source frequency. The result keeps shape and dtype, only contains levels 0..255, and equal pixels map to equal levels with order preserved.",
     [I], "every image and target histogram", "tests use one or two images",
     [S + "utils.py"], [("match_histogram", S + "utils.py")], observe=["return value"])
prop("P14", "Particles are seeded wherever one could move into view",
     "The region in which particles are seeded contains the image extended, on each side, by the distance the fastest admissible flow towards the image covers in dt, expressed consistently in pixels; the image window lies entirely inside of that region. Configurations whose region does not fit into the flow field are rejected when the sampler is built, and those whose region fits are accepted.",
     [C, I], "every image shape, offset, resolution, speed range, dt and flow field size", "tests check a few hand-computed configurations, mostly square",
     [S + "sampler/synthetic.py"], [("position bounds computation", S + "sampler/synthetic.py")], observe=["arguments passed to the generator and the adapter", "ValueError"])
prop("P15", "Image generation specifications are validated whenever one is built",
     "Constructing or updating an image generation specification rejects, with ValueError, every field outside of its documented domain (positive batch size and dt, positive integer image shape, non-negative offsets, probabilities in [0, 1], ordered ranges, rho strictly inside (-1, 1), non-negative variances and noise) and accepts every specification within these domains. The accepted values are stored unchanged.",
     [I], "every combination of field values", "tests probe one invalid value per field",
     [S + "types.py"], [("ImageGenerationSpecification validation", S + "types.py")], observe=["ValueError", "stored fields"])
prop("P16", "The public input checkers accept valid inputs and reject invalid ones",
     "The checkers for image generation, particle motion and flow adaptation raise ValueError for every argument outside of its documented domain, and return normally for arguments inside of it.",
     [I], "every combination of arguments", "tests probe one invalid value per argument",
     [S + "data_generate.py", S + "apply.py", S + "utils.py"], [("input_check_gen_img_from_flow", S + "data_generate.py"), ("input_check_flow_field_adapter", S + "utils.py"), ("input_check_apply_flow", S + "apply.py")], observe=["ValueError"])
prop("P17", "Samplers cannot be built from inconsistent settings",
     "Building a synthetic sampler rejects non-positive or mistyped counts, sizes, resolutions and seeds, inverted speed ranges, unknown units, masks and histograms that do not fit the images, more flow fields than samples and schedulers with malformed shapes. A sampler that was built uses the settings it was given, and its batch size is the requested one rounded up to a multiple of the device count.",
     [C], "every combination of settings", "tests probe one invalid setting at a time",
     [S + "sampler/synthetic.py", S + "sampler/base.py", S + "sampler/real.py"], [("constructor validation", S + "sampler/synthetic.py")], observe=["ValueError/TypeError"])
prop("P18", "Schedulers and their wrappers reject malformed construction arguments",
     "Schedulers reject empty, mistyped or missing file lists, files of another format and non-boolean flags; the prefetching and episodic wrappers reject non-positive or non-integer sizes and timeouts; asking a wrapper for another batch size than it was built for is an error.",
     [C, I], "every combination of arguments", "tests probe one invalid argument at a time",
     [S + "scheduler/base.py", S + "scheduler/mat.py", S + "scheduler/numpy.py", S + "scheduler/hdf5.py", S + "scheduler/prefetch.py", S + "scheduler/episodic.py"], [("constructors", S + "scheduler")], observe=["ValueError/TypeError/FileNotFoundError"])
prop("P19", "Updating a record changes the named fields only and never the original",
     "Updating a batch, scheduler record or generation specification returns a new record of the same type that holds the given values for the named fields, including None and falsy ones, and the original values for all others. The original record is left untouched.",
     [I], "every record and every subset of fields", "tests update one or two fields",
     [S + "types.py"], [("update methods", S + "types.py")], observe=["returned record", "original record"])
prop("P20", "Batches survive a round trip through a JAX pytree",
     "Flattening a batch or a parameter record into its leaves and rebuilding it yields a record with every field equal to the original, so that batches can cross jit, vmap and device transfers; every field is part of the flattened form.",
     [I], "every batch, with or without optional fields", "tests flatten one example",
     [S + "types.py"], [("tree_flatten/tree_unflatten", S + "types.py")], observe=["rebuilt record"])
prop("P21", "A scheduler serves every slice of every file exactly once, in order",
     "Without looping, successive batches contain every slice of every listed file exactly once, in file-list order and in slice order inside of a file, each labelled with the file it came from. Nothing is skipped or repeated at file or batch boundaries, also when a file is listed more than once.",
     [H, I], "every file list, number of slices per file and sequence of batch sizes", "tests use two or three tiny files and one batch size",
     [S + "scheduler/base.py", S + "scheduler/hdf5.py", S + "scheduler/mat.py", S + "scheduler/numpy.py"], [("get_batch and the per-format slicing", S + "scheduler/base.py")],
     [("index, slice index, cached file", "position in the data set", S + "scheduler/base.py")], ["batches"])
prop("P22", "Unreadable files are skipped without losing others or hanging",
     "A file that cannot be loaded is skipped and the data of every other file is still served, in order; the slices of a previously loaded file are never served in its place. If no file can be loaded, the request fails instead of running forever, also when looping.",
     [F, H], "every subset of unreadable files, looping or not", "tests mock one failing file",
     [S + "scheduler/base.py"], [("error handling of file loading", S + "scheduler/base.py")], observe=["batches", "exceptions"])
prop("P23", "Looping wraps around; without looping the end is reported, not hidden",
     "A looping scheduler restarts from the first file after the last one and never reports exhaustion. A scheduler that does not loop raises StopIteration once no slice is left, and keeps doing so until it is reset.",
     [H], "every file list and number of requests", "tests loop once over one or two files",
     [S + "scheduler/base.py"], [("loop handling", S + "scheduler/base.py")], observe=["StopIteration", "batches"])
prop("P24", "Reset brings schedulers and samplers back to their initial state",
     "After a reset a scheduler serves its files again from the first slice of the first file, whatever was consumed before, and a sampler restarts its random sequence and fetches fresh flow fields, so that the data after a reset equals the data after construction when nothing is randomized. Resetting only the sampler leaves the scheduler's position alone.",
     [H], "every history of requests before the reset", "tests reset after one or two steps",
     [S + "scheduler/base.py", S + "sampler/base.py", S + "sampler/synthetic.py"], [("reset methods", S + "scheduler/base.py")], observe=["state after reset"])
prop("P25", "Randomizing only permutes the files, driven by the given key",
     "With randomization a scheduler serves a permutation of its files - none lost, none duplicated - chosen from the key it was given and renewed with a fresh key at every reset; without it the given order is kept. File lists given as directories expand to all matching files in sorted order.",
     [I, H], "every file list, key and number of resets", "tests compare orders for one or two keys",
     [S + "scheduler/base.py"], [("shuffling", S + "scheduler/base.py")], observe=["file order"])
prop("P26", "Incomplete batches are padded with zeros and marked as such",
     "A batch always has the requested size: its first entries are the slices that were left, in order, the remaining ones are zeros for flow fields and images alike; the mask is true exactly for the real entries, and files are empty exactly for the padding. Images, masks and files stay aligned with their flow field.",
     [I, H], "every batch size, number of remaining slices and image type", "tests pad one grayscale batch",
     [S + "scheduler/base.py"], [("get_batch padding", S + "scheduler/base.py")], observe=["batches"])
prop("P27", "File formats are decoded with the right axes, scale and pairing",
     "MATLAB flows are returned as (height, width, 2) for either stored layout, and resizing to the output shape scales the x component by the width ratio and the y component by the height ratio, with images resized to the same shape; HDF5 slices are taken along the second axis; numpy flow t is paired with images t-1 and t of its folder. The announced flow shape is the shape of what is served.",
     [I], "every stored layout, size and frame number", "tests use square arrays and small frame numbers",
     [S + "scheduler/mat.py", S + "scheduler/hdf5.py", S + "scheduler/numpy.py"], [("load_file / get_next_slice / get_flow_fields_shape", S + "scheduler")], observe=["served slices"])
prop("P28", "Prefetching delivers the same batches in the same order",
     "Through the prefetching wrapper a consumer receives exactly the batches that the wrapped scheduler produced, in production order, none lost, duplicated or modified, for every buffer size and relative speed of producer and consumer.",
     [SC, I], "every interleaving of producer and consumer, buffer size and number of batches", "tests run a few timings",
     [S + "scheduler/prefetch.py"], [("worker and queue", S + "scheduler/prefetch.py")], [("queue", "prefetched batches", S + "scheduler/prefetch.py")], ["get_batch results"])
prop("P29", "The prefetching thread starts once and can always be stopped",
     "At most one background thread serves a prefetching scheduler at a time; it is a daemon, is started on first use, and ends after shutdown or reset in bounded time even when the buffer is full. After a reset no batch fetched before it is delivered, and prefetching starts afresh from the reset scheduler.",
     [SC, H], "every interleaving of requests, reset and shutdown with the background thread", "tests exercise a few timings",
     [S + "scheduler/prefetch.py"], [("stop event, join, reset order", S + "scheduler/prefetch.py")], observe=["thread state"])
prop("P30", "Waiting for data is bounded and the end or failure of the stream is reported",
     "A request to a prefetching scheduler returns a batch or raises within the configured timeouts. When the wrapped scheduler is exhausted the consumer gets StopIteration after the last batch, and when it fails the consumer gets its error instead of hanging.",
     [F, SC], "every failure point and interleaving", "tests cover exhaustion and one slow producer",
     [S + "scheduler/prefetch.py"], [("timeouts and end-of-stream sentinel", S + "scheduler/prefetch.py")], observe=["exceptions"])
prop("P31", "Episodes are consecutive frames of one sequence, the same step across the batch",
     "Within an episode, entry e of the batches at steps 0, 1, 2, ... comes from consecutive files, in sorted order, of one directory, starting at an admissible start so that the whole episode fits. Every admissible start of every directory can be drawn, and a directory that is too short is rejected.",
     [I, H], "every directory layout, batch size, episode length and key", "tests check one or two layouts",
     [S + "scheduler/episodic.py"], [("episode sampling and interleaving", S + "scheduler/episodic.py")], observe=["file order handed to the scheduler"])
prop("P32", "Episodes have exactly the configured length",
     "An episodic scheduler serves exactly episode-length steps per episode and then signals the end of the episode until a new one is started; the remaining-steps counter always equals the length minus the steps served. Starting a new episode or resetting at any step begins a fresh episode at its first step, also through the prefetching wrapper.",
     [H], "every sequence of steps, skips and resets", "tests run a few sequences",
     [S + "scheduler/episodic.py", S + "scheduler/prefetch.py"], [("step accounting", S + "scheduler/episodic.py")], observe=["EpisodeEnd", "steps remaining"])
prop("P33", "Samplers refresh flow fields on schedule and flag the end of episodes",
     "A synthetic sampler requests a new batch of flow fields exactly every configured number of batches (every batch for episodic data) and reuses the current ones in between. For episodic data each batch carries a done flag for every sample that is true exactly on the last step, and stepping past the end raises an episode-end error without consuming data.",
     [H, C], "every number of batches and cadence", "tests run a few batches",
     [S + "sampler/synthetic.py", S + "sampler/base.py"], [("refresh condition", S + "sampler/synthetic.py"), ("done flag", S + "sampler/base.py")], observe=["scheduler requests", "yielded batches"])
prop("P34", "Samplers hand through what the scheduler provides and shut it down",
     "A real-image sampler yields the images, flow fields, mask and files of the scheduler batch unchanged up to conversion to float arrays, and refuses schedulers that do not provide images. Every sampler delegates reset, next-episode and shutdown to its scheduler exactly once, and next-episode fails for schedulers without episodes.",
     [H, C], "every scheduler, wrapper nesting and history", "tests use mocks for a few calls",
     [S + "sampler/real.py", S + "sampler/base.py"], [("delegation", S + "sampler/base.py")], observe=["scheduler calls", "yielded batches"])
prop("P35", "A configuration is turned into the pipeline it describes",
     "Building from a configuration chooses the scheduler of the configured format with the configured files, randomization, looping and images; wraps it for episodes exactly when an episode length is set and for prefetching exactly when a buffer size is set, both sized by what the sampler requests per step; and derives independent keys for file order and episodes from the seed. Missing required keys, unsupported formats or images and mistyped values are rejected before anything runs.",
     [C], "every configuration", "tests build a few configurations",
     [S + "make.py"], [("make", S + "make.py")], observe=["constructor arguments", "exceptions"])
prop("P36", "Every configuration key reaches the setting of the same name",
     "Building a scheduler or sampler from a configuration passes each configured value to the setting of the same name, lists converted to tuples where needed, and applies the documented default when an optional key is absent. A missing required key is reported as KeyError naming it; mask and histogram files are loaded from the configured paths and checked.",
     [C], "every configuration", "tests use one complete configuration; swapped keys with equal values go unnoticed",
     [S + "sampler/synthetic.py", S + "sampler/real.py", S + "scheduler/hdf5.py", S + "scheduler/mat.py", S + "scheduler/numpy.py"], [("from_config", S + "sampler/synthetic.py")], observe=["constructor arguments"])
prop("P37", "The sanity check computes true speed extremes and keeps the configuration",
     "The computed minimum and maximum speeds bound every velocity of every listed file, per component and attained. Updating a configuration file changes the given keys only and keeps every other entry, and the speeds are only computed and stored after the user asked for it; already valid speeds are returned as configured.",
     [I, F], "every file set, configuration and answer", "tests use one or two small files and mocked prompts",
     [S + "sanity.py"], [("calculate_min_and_max_speeds", S + "sanity.py"), ("update_config_file", S + "sanity.py"), ("missing_speeds_panel", S + "sanity.py")], observe=["returned speeds", "written file"])
prop("P38", "Data set splits are disjoint, complete and reproducible",
     "The train, validation and tune lists produced from the official list are disjoint, together contain every entry exactly once, have the requested proportions, and depend only on the list and the seed. Every packed file is copied to exactly the splits that list it, and files of no split are not copied.",
     [I, C], "every list, ratio and seed", "the scripts have no tests",
     ["scripts/download_piv_1.py", "scripts/utils.py"], [("fetch_splits", "scripts/download_piv_1.py"), ("perform_split", "scripts/download_piv_1.py")], observe=["written lists", "copied files"])
prop("P39", "Packed samples use the schema the MATLAB scheduler reads, scaled consistently",
     "Packing a sample writes the flow and the first and second image under the names the MATLAB scheduler looks up. When the flow is resized, its x component is scaled by the width ratio and its y component by the height ratio; only complete triplets are packed.",
     [I], "every sample, size and target shape", "the scripts have no tests",
     ["scripts/download_piv_1.py", "scripts/download_piv_2.py", S + "scheduler/mat.py"], [("pack_triplet", "scripts/download_piv_1.py"), ("process_tfrecord", "scripts/download_piv_2.py")], observe=["written datasets"])
prop("P40", "Interrupted or failed downloads never pass for complete, samples never collide",
     "A downloaded file appears under its final name only after the transfer completed, and failure is reported to the caller, who stops before using it. Samples converted from different records or record files are written to different paths.",
     [CP, F], "every interruption point and set of record files", "the scripts have no tests",
     ["scripts/utils.py", "scripts/download_piv_2.py"], [("download_file", "scripts/utils.py"), ("process_tfrecord", "scripts/download_piv_2.py")], observe=["files on disk"])
prop("P41", "The demo pipeline always shuts the sampler down and labels its outputs",
     "However the demo run ends - exhaustion, the user stopping it, an error while generating, visualizing or saving - the sampler is shut down. Each saved picture shows the images and flow of the same sample and goes to a distinct file name.",
     [F, H], "every way to leave the loop", "tests cover the normal exit",
     ["src/main.py"], [("main", "src/main.py")], observe=["calls on every path"])
prop("P46", "A sampled flow function gives the field's value at every pixel",
     "The field made from a flow function has the shape of the grid with the two velocity components last, and its entry at every row and column is the function's value at time 1 at that row and that column.",
     [I], "every grid shape and every flow function", "tests use square grids and functions of one coordinate or none",
     [S + "utils.py"], [("generate_array_flow_field", S + "utils.py")], observe=["return value"])
prop("P47", "Scripts apply their command line and report failure in their exit status",
     "Running the class 1 script splits the lists by the given ratios and seed and packs at the given shape (80/10/10, 42 and 256x256 by default), all below the output directory; the demo uses the given configuration, output directory and number of pictures per batch. Ratios that are not three integers summing to 100, a missing output directory and interruptions end a script with a failing status; the first two write nothing.",
     [I, F], "every command line", "the scripts have no tests; tests of the demo call main directly",
     ["scripts/download_piv_1.py", "scripts/download_piv_2.py", "src/main.py"], [("command line", "scripts/download_piv_1.py"), ("command line", "src/main.py")], observe=["files on disk", "exit status"])
prop("P42", "Random draws follow their nominal distributions",
     "Particle positions are uniform over the seeded region, hiding is Bernoulli with the requested probability, and jitter is Gaussian with the requested variance, to the accuracy of the generator.",
     [I], "every key", "distributions are statistical", [S + "data_generate.py"], [("draws", S + "data_generate.py")],
     na="statistical behaviour of jax.random; only the parameters passed to the draws are statically decidable and these are covered by P09/P10/P14")
prop("P43", "Floating-point results agree with exact arithmetic within rounding",
     "Interpolation, displacement and rendering agree with exact real arithmetic up to a small multiple of the float32 rounding error.",
     [I], "every input", "needs error bounds over all inputs", [S + "utils.py", S + "apply.py", S + "generate.py"], [("float32 arithmetic", S + "utils.py")],
     na="needs a floating-point error analysis through XLA-compiled code, whose fusion and reassociation are not determined by the source; the real-arithmetic identity is covered by P01-P04 and P12")
prop("P44", "Data generation keeps up with the advertised throughput and memory",
     "Generating a batch takes time and memory proportional to batch size, particle count and patch size, and prefetching hides file loading.",
     [C, SC], "every configuration and machine", "performance", [S + "data_generate.py", S + "scheduler/prefetch.py"], [("jit, scan and prefetching", S + "data_generate.py")],
     na="run-time cost on XLA devices is not determined by the Python source in any way a static rule in reach could bound")
prop("P45", "Sharded generation equals single-device generation up to keys",
     "Running on several devices yields the same flow fields and the same statistics of images as running on one device, for every device count that divides the batch.",
     [C], "every device count and topology", "tests run on one CPU device", [S + "sampler/synthetic.py"], [("shard_map over the field axis", S + "sampler/synthetic.py")],
     na="depends on XLA's partitioner and device topology; the source-level half (which key, flow, mask and file each device gets) is decided by P05 and P06")


def main():
    from sa import run
    from texts import TECH
    REGISTRY = run.load().REGISTRY
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "na"}) + "\n")
    checks, nap = [], []
    for p in P:
        if p["id"] in REGISTRY:
            fn, rule, assumptions, technique = (REGISTRY[p["id"]] + ("",))[:4]
            checks.append(dict(
                property=p["id"],
                quick_cmd=f"python3 -m sa.run {p['id']} --tier quick",
                thorough_cmd=f"python3 -m sa.run {p['id']} --tier thorough",
                technique=technique or TECH[p["id"]],
                level="other",
                level_note="Static rule over the current source: " + rule + " Undecided obligations are reported and never alarm."
                           + (" Assumes: " + "; ".join(assumptions) if assumptions else "")))
        else:
            nap.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
    m = dict(version=1, setup_cmd="python3 -c 'import sa.run'", checks=checks, not_applicable=nap,
             notes="Static analysis only (sa/: parser, value-numbering abstract interpreter, interval/region domains, path and effect queries). "
                   "No check imports or runs code of /repo. Exit 0 held, 1 violated, 2 no answer (anchor missing / nothing decidable).")
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(P), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
