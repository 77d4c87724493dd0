"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

B = "cratermaker/core/base.py"; S = "cratermaker/core/simulation.py"; PR = "cratermaker/components/production/__init__.py"
CO = "cratermaker/components/counting/__init__.py"; CR = "cratermaker/components/crater/__init__.py"
MO = "cratermaker/components/morphology/__init__.py"; BM = "cratermaker/components/morphology/basicmoon.py"
SU = "cratermaker/components/surface/__init__.py"; HL = "cratermaker/components/surface/hireslocal.py"
GU = "cratermaker/utils/general_utils.py"; MC = "cratermaker/utils/montecarlo_utils.py"
NE = "cratermaker/components/production/neukum.py"; PL = "cratermaker/components/production/powerlaw.py"
SC = "cratermaker/components/scaling/montecarlo.py"; CT = "cratermaker/components/scaling/ctem.py"
PJ = "cratermaker/components/projectile/__init__.py"; TA = "cratermaker/components/target/__init__.py"
AR = "cratermaker/components/surface/arbitrary_resolution.py"; IC = "cratermaker/components/surface/icosphere.py"

p("C01", "A run's clock and saved intervals add up",
  "A completed run leaves one saved state for every interval boundary, numbered consecutively, whose times fall strictly from the requested start to exactly the requested end. In every saved state the elapsed time equals start time minus current time and the elapsed 1-km production equals what the production function accumulated over that span. Every crater generated during an interval carries a formation time inside that interval, and the craters are handed on oldest first.",
  ["inputs", "histories"], "every legal start, end, age or crater-number specification, every interval count or interval length (including ones that do not divide the span), several runs in a row on one simulation",
  "The tests only check that illegal argument combinations raise; no test runs a simulation here, and no finite sample covers all spans, interval lengths and restarts.",
  [S], [("run loop: initial save, per-interval populate, clock update, save", S + ":run"), ("population of one interval", S + ":populate")],
  ["time, elapsed_time, elapsed_n1, interval after run()", "time variables stored in the saved files"])

p("C02", "Contradictory run and sampling requests are refused without effect",
  "A request to run or to sample a population that mixes mutually exclusive ways of giving the time span, the crater number or the number of intervals, omits what is required, or gives values outside their legal range is refused with an error, and the clock, the surface, the craters, the random stream and the files on disk stay exactly as they were. Every legal request is accepted and resolves to one start time, end time and interval plan, and the same span expressed as an age or as the equivalent crater number resolves to the same times.",
  ["inputs", "configurations"], "every subset of the time/number/interval arguments with legal, boundary and illegal values",
  "The tests try about a dozen hand-picked bad combinations and never check that nothing changed; the argument lattice has thousands of combinations.",
  [S, PR], [("run argument resolution", S + ":_validate_run_args"), ("sampling argument resolution", PR + ":_validate_sample_args"), ("csfd/age argument checks", PR + ":_validate_csfd,_validate_age")],
  ["exception type, state and files before/after"])

p("C03", "Reopening a simulation continues exactly where it stopped",
  "Reopening a simulation from its directory restores the clock, interval counter, surface elevations, crater tallies, configuration and random stream of the last saved state. Splitting a run at any saved interval, reopening and continuing therefore gives the same interval numbers, times, craters and surface as the uninterrupted run, with no interval lost, repeated or rewritten.",
  ["histories", "crash_points"], "every point between saved intervals at which the session ends, any number of reopenings",
  "The only reopening test checks a fresh, never-run simulation; the split point and number of restarts are unbounded.",
  [S, SU, CO, B], [("resume from configuration file", S + ":__init__"), ("loading of the last saved surface", SU + ":_load_from_files"), ("loading of saved crater lists", CO + ":__init__"), ("restart interval computation", S + ":run")],
  ["state of the reopened Simulation", "files of the split run vs the uninterrupted run"])

p("C04", "Earlier results are discarded only with consent",
  "When an earlier run is reset, its mesh is replaced or an export file is written again, files of earlier results are deleted or overwritten only if overwriting was enabled or the user agreed to it; a file the user declined, and the configuration of a run whose reset was declined, stay byte-identical, and after answering 'all' to a reset no further question is asked. Whatever is discarded, files in the simulation directory that the program did not produce are never removed or changed, and one component's reset never removes another component's results.",
  ["histories", "inputs"], "every sequence of open, save, export and reset operations with every answer, with arbitrary foreign files present",
  "Tests always run with prompting disabled in an empty directory; histories of prompts and answers are unbounded.",
  [B, S, SU, CO], [("overwrite prompt", B + ":_overwrite_check"), ("component reset", B + ":reset"), ("simulation reset and initial prompt", S + ":reset,__init__"), ("export overwrite handling", S + ":export")],
  ["directory listing and file contents", "number of prompts"])

p("C05", "Saved intervals read back exactly and stay independent",
  "After any history of saves and resets, reading a saved interval back returns exactly the surface fields, tags and time variables that were in memory when that interval was last saved, and saving or re-saving one interval never alters another. The reported list of saved intervals is exactly the set saved since the last reset, in ascending order, negative indices count from its end, and an interval that was never saved yields no data instead of another interval's data.",
  ["histories", "inputs"], "every sequence of field changes, saves at arbitrary interval numbers, resets and reads, with and without reloading in between",
  "Tests save at most once and never read an older interval back.",
  [B, SU, CO], [("interval files", B + ":get_saved_interval_numbers,read_saved_output,_output_file_processor"), ("merge into existing file", SU + ":_save_data,save"), ("crater list files", CO + ":save")],
  ["datasets returned by reading back", "interval list"])

p("C06", "Configuration: explicit arguments win, and every setting survives",
  "For every setting an explicit argument wins over the stored configuration file, which wins over the built-in default, in any combination of components and settings. Every user-configurable setting that was changed, at creation or later, is written to the configuration so that reopening the simulation yields the same value, and only a read-only configuration is left unmodified.",
  ["configurations", "histories"], "every subset of settings given explicitly, stored, or changed later, and any number of reopenings",
  "Tests round-trip one default configuration; the lattice of explicit/stored/default per setting and later changes is not sampled.",
  [S, GU, B], [("property resolution order", GU + ":_set_properties"), ("parameter tracking", GU + ":Parameter"), ("config writing on attribute change", S + ":__setattr__,to_config")],
  ["values of the settings on the reopened simulation", "cratermaker.yaml"])

p("C07", "Same seed, same results; one shared random stream",
  "Two simulations built with the same seed and given the same sequence of operations produce identical craters, surfaces and files, and neither reads nor disturbs any random generator outside the simulation. All components of a simulation draw from one shared generator also after components are replaced, and restoring a recorded generator state reproduces exactly the draws that followed it.",
  ["histories", "configurations"], "every sequence of random-consuming operations, component replacements, seed and state assignments",
  "Tests draw a few numbers from two generators; operation sequences and component graphs are unbounded.",
  [B, S, MC], [("generator initialisation", B + ":_rng_init"), ("sharing through common arguments", B + ":common_args,rng,rng_seed,rng_state"), ("samplers", MC + ":get_random_*")],
  ["bit generator state", "crater ids, saved fields"])

p("C08", "Crater identity and copies",
  "A crater's identity is a function of its fixed physical parameters only: equal parameters give equal identity in every process, changing its size, shape, orientation, impact velocity, angle, projectile mass, location or time gives a different one, and measuring, renaming or tracking a crater never changes it. Fixed parameters cannot be modified on an existing crater, and a copy carries all parameters over except those explicitly replaced (a copy given a new size starts with fresh measured values) and never shares measured state with the original.",
  ["histories", "inputs"], "every sequence of create, copy-with-changes, measure, rename and convert operations over all parameters",
  "Tests copy two craters once; they do not cover each parameter or sequences of copies and measurements.",
  [CR, MO, BM], [("identity hash", CR + ":maker/_set_id"), ("immutability", CR + ":CraterFixed,__setattr__"), ("copy path", CR + ":maker"), ("typed craters", MO + ":MorphologyCrater.maker; " + BM + ":BasicMoonCrater.maker")],
  ["id, attributes of original and copy"])

p("C09", "Crater requests: exactly one size, consistent derived quantities",
  "A new crater must be given exactly one size (final, transient or projectile; as diameter, radius, mass or axes) and at most two of total velocity, vertical velocity and impact angle; any other combination or out-of-range value is refused. For every accepted crater diameters are twice radii, the mean size and the axes agree, projectile mass, density and size agree, the three velocity quantities agree, sizes are positive, angles lie in their ranges, and every value given explicitly is the value reported.",
  ["inputs", "configurations"], "every subset of the construction arguments with legal, boundary and illegal values",
  "Tests sample some combinations of two arguments; the full lattice and the consistency of all derived values is not checked.",
  [CR, PJ], [("argument contract", CR + ":maker"), ("projectile defaults", PJ + ":new_projectile")],
  ["attributes of the returned crater or exception"])

p("C10", "Crater lists survive every table format",
  "Writing any list of craters to the saved, CSV or crater-count table formats and reading it back yields the same craters in the same number, with the attributes that format carries equal to the originals and identities preserved where the format stores them. Crater attributes that are absent stay absent and pairs, ranges and names are neither reordered nor mixed between craters.",
  ["inputs", "histories"], "every list of craters with arbitrary mixtures of present and absent attributes",
  "Only one list is read from one fixture; mixtures of missing attributes are not sampled.",
  [CR, CO], [("xarray conversion", CR + ":from_xarray; " + CO + ":to_xarray"), ("CSV / SCC", CR + ":from_csv_file,from_scc_file; " + CO + ":to_csv_file,to_scc_file"), ("tuple flattening", CR + ":_convert_tuple_vars")],
  ["attributes of craters read back"])

p("C11", "The observed-crater list agrees with the surface",
  "A crater is listed as observed only while at least one surface face carries its tag and every tag on the surface belongs to a listed crater, through any sequence of additions, removals, tallies, saves, reopenings and resets. A new crater larger than an older one it overlaps erases the older crater's tag inside its rim and never the other way around, a removed crater disappears from list and surface together, and no operation on one crater changes another crater's tags outside the region it covers.",
  ["histories"], "every sequence of add, remove, tally, save/reload and reset over overlapping and disjoint craters of any sizes",
  "No counting test can run in the suite without the compiled library; histories of overlapping craters are unbounded.",
  [CO, SU], [("add with cookie cutting", CO + ":add"), ("remove", CO + ":remove"), ("tally and orphan removal", CO + ":tally"), ("tag storage", SU + ":add_tag,remove_tag")],
  ["observed dictionary", "crater id field of the surface"])

p("C12", "Tag layers: local, lossless until full, exact removal",
  "Tagging a region adds the tag to exactly the faces of that region, removing a tag deletes it from exactly the faces where it was, and sorting or saving never changes the set of tags on any face. A face keeps every tag put on it while it has a free layer, and no tag is ever lost silently.",
  ["histories"], "every sequence of tag, untag and sort operations on overlapping regions, including more tags than layers",
  "No test uses tags; the overflow needs at least nine overlapping tags.",
  [SU], [("tag insertion", SU + ":LocalSurface.add_tag"), ("removal", SU + ":LocalSurface.remove_tag"), ("sorting", SU + ":LocalSurface.sort_tags")],
  ["tag field of the whole surface"])

p("C13", "Surface edits change exactly the region they address",
  "Adding or overwriting a data field or an elevation through a region changes exactly the faces and nodes of that region by exactly the given amounts and leaves every other element unchanged, whether the region is the whole surface, an extracted region or a region of a region. Values seen through a region are always the current values of the surface, wrong-sized or unsupported data are refused without effect, and resetting restores only the initial fields at zero elevation.",
  ["histories", "inputs"], "every sequence of additive and overwriting edits of scalar, face, node and combined data through nested regions",
  "Tests apply one scalar or array to the whole mesh; nested regions and sequences are not covered.",
  [SU], [("region data views", SU + ":LocalSurface.add_data,update_elevation,__getattr__"), ("global data", SU + ":Surface.add_data,_add_new_data,reset")],
  ["all face and node arrays before and after"])

p("C14", "Craters are emplaced once each, in order, in disjoint batches",
  "Every crater handed to emplacement that is large enough for the surface is formed exactly once, and two craters whose affected areas overlap are always formed in the order they were handed over, oldest first. Craters processed together never overlap, craters too small for the surface are never formed, and each formed crater is recorded exactly once in the list of emplaced craters.",
  ["histories", "schedules"], "every list of craters with every overlap pattern, in one or several calls, interrupted by errors or not",
  "No emplacement test can run in the suite here, and overlap patterns are unbounded.",
  [MO, BM], [("queue", MO + ":QueueManager.push,peek_next_batch,pop_batch"), ("batch processing", MO + ":_process_queue,emplace"), ("recording", MO + ":form_crater")],
  ["order of formation, emplaced list"])

p("C15", "Scheduled craters are merged exactly once",
  "Merging the scheduled (quasi-Monte-Carlo) craters into a random population inserts each scheduled crater whose time lies in the interval exactly once and no other, over a series of consecutive intervals each scheduled crater exactly once in total. Each inserted crater displaces at most one random crater, never a scheduled one, namely one at least as large that is closest in size, all other random craters remain, and the merged list is ordered oldest first.",
  ["inputs", "histories"], "every random population, every set of scheduled craters with sizes and times on and around the interval boundaries",
  "No test merges scheduled craters.",
  [PR, S], [("merge", PR + ":quasimc_merge"), ("use in an interval", S + ":populate,quasimc_merge")],
  ["merged list"])

p("C16", "Scheduled craters get times that honour their constraints",
  "Every scheduled crater offered with an absolute production time (mean and standard deviation), a crater-number density, or a sequence number is given exactly one formation time, never in the future and never beyond the valid range of the chronology, and craters without any of these are left out. Exact times (zero deviation) within that range are kept as given unless overlapping or missing constraints of other sequences force a compromise, uncertain ones follow their mean and deviation, and craters of successive stratigraphic sequences (older first) never get times in the wrong order; a list whose sequences state separate ranges is never refused, one whose oldest sequence states nothing always is.",
  ["inputs"], "every list of scheduled craters with any mixture of exact times, ranges, number densities and sequence numbers",
  "No test assigns times to scheduled craters.",
  [PR], [("time assignment", PR + ":_process_quasimc_craters"), ("storage", PR + ":quasimc_craters")],
  ["production_time/time of the stored craters"])

p("C17", "Production functions are monotone, additive and inverted correctly",
  "For every production model the cumulative number never increases with diameter, never decreases with time span, is zero for an empty span, and splits additively over adjacent spans. The inverse queries agree with the forward one: the age found for a diameter and number, and the diameter found for a number and age, reproduce that number, and scalar, list and array inputs give the same answers, which depend on the current settings only. Spans that end before they start or leave the valid range, negative diameters and numbers, and numbers no age reaches are refused.",
  ["inputs", "configurations"], "every model and version, every diameter and time in the valid range, and every order of changing model settings",
  "Tests check a few ages and diameters per model.",
  [PR, NE, PL], [("production functions", NE + ":function,chronology,csfd; " + PL + ":function,chronology"), ("inverse", PR + ":age_from_D_N,D_from_N_age")],
  ["returned values"])

p("C18", "Sampled populations respect the requested bounds",
  "Every crater in a sampled population has a diameter within the requested diameter range and a time within the requested time span, in descending order of age, as many times as diameters, and the sample size follows the expected number for the area and span; the same seed gives the same sample. A generated population puts every crater on a face of a size class for which it is large enough, with the expected number on each class, and faces too large for any crater are left alone. Random locations lie on the requested faces and in coordinate range, random velocities, angles and sizes stay within their stated limits and follow their stated distribution.",
  ["inputs", "configurations"], "every legal range, area, seed and model",
  "Tests look at one or two seeds and ranges.",
  [PR, MC], [("sampling", PR + ":sample,compute_time"), ("samplers", MC + ":get_random_size,get_random_velocity,get_random_location,bounded_norm")],
  ["returned diameters and times"])

p("C19", "Coordinates have one canonical form",
  "Normalising any finite longitude/latitude pair yields a longitude in [-180, 180) and latitude in [-90, 90] that denote the same point on the sphere, and normalising twice changes nothing. Every accepted input form of the same point gives the same result, malformed locations are refused, and the locations stored on craters and projectiles are always in this form.",
  ["inputs"], "every finite longitude and latitude, including many turns and passages over the poles, in every accepted container",
  "Tests check a handful of points.",
  [GU], [("normalisation", GU + ":normalize_coords,validate_and_normalize_location")],
  ["returned pair"])

p("C20", "Regions contain exactly the elements they should",
  "A region of given centre and radius contains exactly the faces whose centre lies within the radius plus the faces touching one of those, each once, and no node or edge that does not belong to them; a radius of half the circumference or more selects the whole surface, a radius that reaches no face gives no region, and a region of a region has the same faces as the directly extracted one. The connectivity and geometry reported inside a region are those of the same elements of the whole surface, and distances and bearings are those from the region's centre. Looking up the nearest face or node of a location, and going from a location by a distance and bearing, agree with these distances.",
  ["inputs", "configurations"], "every centre (including poles and the date line), radius and mesh",
  "Region extraction needs the compiled library, so no test reaches it here; centres and radii form a continuum.",
  [SU], [("extraction", SU + ":extract_region,extract_subregion"), ("connectivity remapping", SU + ":_remap_connectivity_to_local")],
  ["index sets and connectivity arrays of the region"])

p("C21", "A stored mesh is reused only if it matches the request",
  "Opening a surface reuses the stored mesh exactly when it was generated from the same kind, target size and resolution parameters, and otherwise builds and stores a new one; regeneration never happens silently over saved results without the overwrite rules. A mesh covers the sphere: faces partition its area, every face belongs to exactly one size class, and the same parameters always give the same mesh.",
  ["histories", "configurations"], "every sequence of openings with any mesh kind and parameters in one directory",
  "Tests build one mesh per directory.",
  [SU, IC, AR, HL], [("reuse decision", SU + ":_regrid_if_needed,_is_same_grid,_id"), ("size classes", SU + ":_compute_face_bins")],
  ["grid file identity, face counts, areas"])

p("C22", "Scaling laws invert each other and follow the material",
  "Converting projectile to transient to projectile size, and transient to final to transient size with the class it was given, returns the starting size; a larger projectile never gives a smaller transient crater and within one morphology class a larger crater never gives a smaller one; the morphology class is simple well below and complex well above the transition, and impossible sizes are refused. Results depend only on the current material, target and projectile settings: changing the material, a strength, the density, the projectile, the target or the Monte Carlo mode takes effect at once (a target body altered in place: at the latest with the next crater), explicit strength parameters and density win over the material's, and setting a material replaces all of its parameters together.",
  ["inputs", "histories"], "every size, target, material, projectile and sequence of setting changes",
  "Tests check one size per target.",
  [SC, CT], [("conversions", SC + ":projectile_to_transient,transient_to_projectile,final_to_transient,transient_to_final"), ("material", SC + ":material,recompute")],
  ["returned sizes and classes"])

p("C23", "Component factories return what was asked for, independently",
  "Asking for a component by name returns that registered model (none: the documented default for the target), by instance that very object, and unknown names are refused listing what exists. Built-in catalogues are never altered by use, every instance starts from the same catalogue values whatever was done with other instances before, an explicit argument always overrides a catalogue value, and changing one component never changes another.",
  ["histories", "configurations"], "every sequence of component requests, overrides and changes",
  "Tests create each component once in a fresh process and never check earlier use for side effects.",
  [B, TA, PJ, SC, GU], [("registry", B + ":maker,register"), ("catalogue lookup", GU + ":_set_properties; " + TA + ":catalogue; " + PJ + ":catalogue; " + SC + ":material_catalogue")],
  ["component type and attributes"])

p("C24", "Crater formation conserves mass and stays in its footprint",
  "Forming a crater with its ejecta moves material without creating or destroying any: the volume excavated equals the volume deposited, nothing outside the crater's reported affected area changes, a crater smaller than its face changes nothing and one well above the face size is formed. Diffusion, slope collapse and degradation conserve volume, stay in the region they are applied to (on a region of a high-resolution local mesh: in the local area), make no new extremes and refuse negative or ill-shaped diffusivities without changing anything. Collected subpixel degradation is never negative, adds up over consecutive spans and is used up when it is applied.",
  ["inputs", "histories"], "every crater size and position on every mesh, alone or after others",
  "Crater formation needs the compiled library, so no test reaches it here.",
  [MO, BM, SU, HL], [("crater and ejecta", MO + ":form_crater,form_ejecta"), ("diffusion", SU + ":apply_diffusion; " + HL + ":apply_diffusion"), ("degradation", BM + ":form_ejecta,apply_subpixel_degradation")],
  ["surface elevation before/after"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
