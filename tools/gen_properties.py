"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

CL, OP, FU, PR, OR, TA, UN, RE, CO = ("clustertools/cluster/cluster.py", "clustertools/cluster/operations.py",
  "clustertools/analysis/functions.py", "clustertools/analysis/profiles.py", "clustertools/analysis/orbits.py",
  "clustertools/tidaltail/tails.py", "clustertools/util/units.py", "clustertools/util/recipes.py", "clustertools/util/coordinates.py")

prop("C01", "Unit and origin change histories never change the physical cluster",
 "After any sequence of unit, origin and binary-unit changes on any number of clusters, the star positions, velocities, masses, time, centre, galactocentric orbit and binary elements of each cluster, read in its current units and origin, still describe the same physical cluster up to rounding. The unit and origin labels always say what the arrays contain, and returning to a frame visited before reproduces its numbers. Quantities the cluster derives from positions and velocities (radii, speeds, projected versions, half-mass and 10% radii, radial orderings, binary counts) always match the current arrays.",
 ["histories", "inputs", "configurations"],
 "all sequences of frame changes (7 Cartesian unit systems, sky units, amuse; centre, cluster, galaxy, sky origins; the three sky-centring methods) over all clusters, scale factors, solar parameters, and interleavings of several clusters",
 "The tests check single hops from one fixed cluster, mostly with xc=0 and default scales; the number of sequences is unbounded and each hop mutates some twenty attributes in place.",
 [OP, CL], [("unit conversions", OP + ":56-850"), ("origin changes", OP + ":922-1316"), ("derived quantities", CL + ":analyze/sortstars")],
 [("units/origin/bunits", "labels that give the arrays their meaning", CL), ("xc..vzc, xgc..vzgc", "centre and orbit carried through conversions", CL)],
 ["public attributes of StarCluster after every operation"])

prop("C02", "Asking a question leaves the cluster as it was found",
 "Calling any analysis (centre finding aside), profile, energy, radius, orbit-path, tail, plotting, subset, copy or output function on a cluster, with any options and in any units and origin, leaves its units, origin, time, stars, masses, centre and orbit as they were up to rounding, and its binary elements describing the same binaries. Only the attributes in which that function documents its answer may change. The same holds when such calls are repeated and interleaved with frame changes.",
 ["histories", "inputs", "configurations"],
 "every analysis entry point, its option combinations, every frame the cluster may be in, and every sequence of such calls",
 "Tests call each analysis once from a prepared frame and look at the returned value, not at the some thirty attributes that every analysis moves to another frame and back.",
 [FU, PR, OR, TA, CL, OP], [("save/return of the frame", OP + ":save_cluster/return_cluster"), ("each analysis' temporary frame change", FU)],
 observe=["public attributes of StarCluster before and after each call"])

prop("C03", "Answers depend on the current state, never on the route that led to it",
 "What an analysis or conversion returns depends only on the cluster's current public data, labels and arguments: a fresh cluster built from those current data gives the same answer as one that reached them through any history of conversions, analyses and edits. Nothing remembered from an earlier question, frame, star set or other cluster leaks into a later answer.",
 ["histories"],
 "all histories of operations (including adding stars, moving stars, time evolution and changing the centre) followed by any question",
 "Tests build a new cluster per test, so cached orderings, orbits, energies, limits and default arguments are never stale in them.",
 [CL, FU, PR, OR, OP], [("cached radial orderings", CL + ":sortstars"), ("cached orbit objects", OP + ":to_radec/from_radec"), ("remembered results", CL)],
 [("rorder, rproorder, rorder_origin", "cached sort order", CL), ("orbit, orbits", "cached orbit objects", CL)],
 ["return values of analyses on the cluster and on its fresh twin"])

prop("C04", "The same question has the same physical answer in every units system",
 "An analysis asked at any two points of a history of unit and origin changes gives the same physical answer, expressed in the units in force at the time, whenever it is documented to be independent of the frame. This covers half-mass, Lagrange, virial, core and limiting radii, relaxation and crossing times, energies, mass functions, density, dispersion and mass profiles, orbit interpolation, orbital paths and tail coordinates.",
 ["histories", "configurations"],
 "all pairs of Cartesian unit systems (and centre/galaxy origins where the analysis returns to the centre itself), all conversion scale factors, all sequences between the two questions",
 "Tests check an analysis in at most one or two unit systems against formulas with the same constants.",
 [FU, PR, OR, TA, UN], [("temporary conversion to a working unit system", FU), ("conversion of results back", UN)],
 observe=["return values of analyses"])

prop("C05", "A failure inside a calculation surfaces and leaves a recoverable cluster",
 "When a step inside an operation fails (a potential or orbit evaluation, a fit, a tree search, a plotting or file call, an allocation, or an interrupt), the failure reaches the caller as an exception rather than as a silently wrong answer. The cluster is left describing the same physical stars under labels that are true of its arrays, and repeating the operation after the fault succeeds with the answer a never-failed cluster gives.",
 ["fault_sequences", "crash_points", "histories"],
 "every call the library makes to an outside component during any operation, each as the point of failure, for exceptions of several kinds, followed by recovery",
 "Tests never inject a fault.",
 [FU, PR, OR, TA, CL, OP], [("temporary frame changes around outside calls", FU), ("broad exception handlers", FU)],
 observe=["exceptions seen by the caller, public attributes afterwards, answers after recovery"])

prop("C06", "Arguments belong to the caller and are never modified",
 "Arrays, masks, lists, dictionaries and potentials passed to any function, and other clusters passed as arguments, come back unchanged in value, whether the call succeeds or fails. Passing the same argument objects to a second call therefore gives the same answer.",
 ["inputs", "histories", "fault_sequences"],
 "every public function taking arrays, masks, lists, dictionaries, clusters or output options, every sequence of calls sharing argument objects, with and without failing steps",
 "Tests pass fresh arguments and do not look at them afterwards.",
 [CL, FU, PR, OR, "clustertools/util/output.py", "clustertools/io/load.py", UN], [("masks combined with selection limits", CL + ":_get_subset"), ("unit conversion of arguments", UN)],
 observe=["argument objects after the call"])

prop("C07", "Caller threads working on different clusters do not affect each other",
 "When several caller threads use the library at the same time, each on its own cluster, every thread gets exactly the results it would get alone, for every interleaving of their steps.",
 ["schedules"],
 "all interleavings of the library's code lines between 2-3 threads with independent operation sequences",
 "Tests are single-threaded.",
 [CL, OP, FU, PR, OR, UN, RE], [("absence of shared mutable module state and default arguments", CL)],
 observe=["return values and final cluster attributes per thread"])

prop("C08", "Reading a run yields every snapshot exactly once, in order",
 "Repeatedly advancing through a simulation output (single-file, numbered-file, multi-file and grouped formats) delivers every snapshot exactly once and in order, with each snapshot's stars, binaries, scale factors, time, and orbit entry taken from that snapshot. Several readers interleaved in any order, or files that grow between reads, do not disturb each other, and past the last snapshot an empty cluster is returned instead of stale or repeated data.",
 ["schedules", "histories", "inputs"],
 "all run lengths, star counts per snapshot (shrinking as stars escape), formats, reader/writer interleavings and skip patterns",
 "Tests read one or two snapshots of fixed fixture files with one reader.",
 ["clustertools/io/load.py", "clustertools/io/snapshot.py", "clustertools/io/gyrfalcon.py", "clustertools/io/nbody6.py", "clustertools/io/nbody6pp.py", "clustertools/io/orbit.py"],
 [("shared file positions carried between clusters", "clustertools/io/load.py:advance_cluster"), ("format loaders", "clustertools/io")],
 [("nsnap, sfile, ofile", "reader position", CL)], ["the clusters returned by load_cluster/advance_cluster"])

prop("C09", "A torn, short or failing input is never taken for a whole snapshot",
 "If a simulation output file ends in the middle of a snapshot, or a read fails or comes back short, loading either raises an error or reports the end of the data; it never returns a cluster with fewer, repeated or mixed stars as if it were complete. Short reads that are later completed change nothing, and once the input is whole again a new reader gets all of it.",
 ["fault_sequences", "crash_points"],
 "every byte position at which a declared-length snapshot file may be cut and every read call that may fail or be short",
 "Tests only read intact files.",
 ["clustertools/io/gyrfalcon.py", "clustertools/io/nbody6.py", "clustertools/io/nbody6pp.py", "clustertools/io/load.py", "clustertools/io/orbit.py"],
 [("declared star counts in headers", "clustertools/io/gyrfalcon.py"), ("record lengths", "clustertools/io/nbody6.py:_get_nbody6_out3")],
 observe=["the cluster or exception a loader gives on a damaged file"])

prop("C10", "Written output reads back as the same cluster, and failed writes are reported",
 "A snapshot, stellar-evolution or N-body initial-conditions file written from a cluster in any units and origin contains every star exactly once, in order, and reads back as the same physical cluster in the documented units. If opening, writing, flushing or closing the output fails, the caller gets an error; in every case the cluster itself is unchanged and a later retry produces a complete file.",
 ["fault_sequences", "crash_points", "inputs", "configurations"],
 "all clusters, frames, column options and output formats; a fault at every open, write, flush and close with disk-full, I/O and permission errors",
 "Tests write from one frame and check a few columns; no write ever fails in them.",
 ["clustertools/util/output.py"], [("column table writers", "clustertools/util/output.py:snapout"), ("frame save/return", OP)],
 observe=["files written, exceptions, cluster attributes after the call"])

prop("C11", "Parallel energy sums equal the serial ones for every thread schedule",
 "Potential energies computed with worker threads equal those computed serially for every number of workers, division of the work among them and interleaving of their memory accesses, with and without softening. The same energies, star by star and in total, result whichever of the library's ways of computing them is chosen.",
 ["schedules", "configurations"],
 "all interleavings of the loads and stores of 2-4 workers, all divisions of the outer loop, all star sets",
 "A lost update needs two workers to touch the same element at the same moment; tests compare one or two real runs on unspecified core counts.",
 [FU], [("parallel pairwise sum", FU + ":_potential_energy_parallel"), ("choice of algorithm", FU + ":_get_energies")],
 observe=["energies returned and stored"])

prop("C12", "Random operations conserve what they promise and repeat under a fixed seed",
 "Adding rotation only reverses the tangential velocity of stars moving against it, for every possible draw: positions, masses, radial and vertical velocities, speeds and star order are kept, no star moving with it is touched, and the fraction 0 and 1 limits are exact. Power-law samplers stay inside the requested range and return the requested number of values. With the global random seed fixed every random operation repeats exactly, and no analysis consumes random numbers or depends on hash order or the clock.",
 ["schedules", "inputs", "histories"],
 "all random streams, including adversarial extremes (all 0, all just below 1, exact ties), all clusters, frames and fractions",
 "Tests draw one sample from an unseeded stream and check averages.",
 [OP, RE], [("selection of stars to flip", OP + ":add_rotation"), ("inverse-transform sampling", RE + ":power_law_distribution_function")],
 observe=["returned arrays, cluster attributes and random generator state"])

prop("C13", "Star bookkeeping stays aligned through adding, cutting, scaling and joining",
 "Through any sequence of adding stars and binaries, attaching evolution data, taking sub-clusters by any criteria, and rescaling, every per-star array has exactly one entry per star in the same order, identities, masses and evolution data stay attached to their star, and the star and binary counts agree with the arrays. A sub-cluster holds exactly the selected stars with all their data and the same frame, and leaves its parent unchanged.",
 ["histories", "inputs"],
 "all sequences of add/sub-cluster/overlap/virialise operations with all option combinations and frames",
 "Tests check lengths after one add or one cut on a cluster without binaries or evolution data.",
 [CL, OP], [("appending", CL + ":add_stars/add_binary_stars"), ("selection", CL + ":_get_subset/sub_cluster")],
 observe=["public attributes after each operation"])

prop("C14", "A run continued in a restart directory is read through without gap or repeat",
 "When a simulation was stopped and continued in the restart directory, advancing past the last snapshot of the first part continues with the first snapshot of the continuation, each exactly once and in order, for every split point and every supported format, keeping the options the reader was opened with. When there is no continuation, the reader reports the end with an empty cluster.",
 ["crash_points", "histories", "inputs"],
 "all points at which a run of any length may have been stopped and restarted, formats and reader options",
 "No test has a restart directory.",
 ["clustertools/io/load.py", "clustertools/io/snapshot.py", "clustertools/io/nbody6.py"], [("restart directory", "clustertools/io/load.py:advance_cluster")],
 observe=["the sequence of clusters returned by advance_cluster"])

prop("C15", "Orbits compose and reverse, and stars are matched to paths where they are",
 "Evolving a cluster's orbit or its stars in a static potential by t1 and then t2 equals evolving by t1+t2, and evolving forward then back returns to the start, up to integration accuracy, in every unit system and from every origin. An orbital path passes through the present position at time zero and its ends agree with evolving the orbit by the same time, and stars keep their order and identity. Matching stars to an orbital or tail path gives each star the time of the nearest point of the path, its distance from the path and the distance along the path from the cluster, and a tail path is the average of the stars matched to each stretch of the orbit, whichever path, time range and number of stretches is given.",
 ["histories", "inputs", "configurations"],
 "all sequences of time steps (positive and negative), frame changes between them, potentials and orbits; all paths, star positions and bin settings",
 "Tests check one step of one orbit against galpy, and that a star on the path is close to it.",
 [OR, CL, TA], [("orbit integration and conversion back", OR + ":interpolate_orbit/interpolate_orbits/orbital_path"), ("applying the new orbit", CL + ":interpolate_orbit(s)"),
                ("matching and averaging", OR + ":orbital_path_match"), ("tails", TA + ":tail_path/tail_path_match")],
 observe=["cluster centre, stars and returned paths"])

prop("C16", "Binning, mass-function, sampling and coordinate formulas are numerically correct",
 "Equal-number and equal-width bins cover all values, straight-line and tapered fits recover the parameters of data generated from them, and coordinate transformations are orthonormal and invert each other.",
 ["inputs"],
 "all finite input arrays",
 "Tests use a few arrays.",
 [RE, CO, PR], [("binning and fitting", RE), ("coordinate transforms", CO)],
 observe=["returned arrays"])

prop("C17", "Analyses return what they define for the cluster as it currently stands",
 "Whatever was done to a cluster before (units, origin, added, moved or re-weighted stars, new orbit, new centre, virialising, other questions), a profile, mass function, sigma-mass slope, equipartition mass, relaxation time, energy, closest star, Lagrange, virial, core, tidal or limiting radius, centre, subset, coordinate or tail-coordinate question returns the quantity it is documented to return for exactly the stars it now holds, the stars selected, the options given (projected, filters, bins, number of bins, normalisation, weights) and the reference point documented, expressed in the current units; it is not refused when that quantity is defined.",
 ["histories", "inputs", "configurations"],
 "all histories of frame changes and edits, all clusters, all option combinations of each question",
 "Tests ask each question once, mostly with default options, of a freshly built cluster in its first frame, and often only check that the answer is finite.",
 [FU, PR, CL], [("functions", FU), ("profiles", PR), ("orders, radii and selections kept up to date", CL + ":analyze/sortstars/subset")],
 observe=["returned answers, compared with an independent calculation from the public star arrays"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
