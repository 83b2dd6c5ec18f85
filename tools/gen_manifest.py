"""Writes MANIFEST.json from the list of checks that exist."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
TECH = "deterministic simulation with seeded fault injection: "
CHECKS = {
 "C01": ("exploration", TECH + "seeded histories of frame changes on several clusters in forked single-seed runs, checked after every step against an executable physical model of the clusters", "seeded search, not exhaustive; sky frames away from poles, seam and Sun"),
 "C02": ("exploration", TECH + "seeded histories of questions (every analysis entry point with random options) and frame changes; every public attribute compared before and after each question", "seeded search; amuse frames only where the installed numpy lets amuse arrays through"),
 "C03": ("exploration", TECH + "seeded histories of edits, conversions and questions; each step is also put to a fresh cluster built from the current public data and answers and resulting data compared", "seeded search; twin not built in amuse frames"),
 "C04": ("exploration", TECH + "one seeded question asked at several points of a seeded history of unit and origin changes, the answers brought to the same physical units and compared", "seeded search; 1e-3 tolerance where the library's own gravitational constants differ; sky-frame questions are left to C02/C03"),
 "C05": ("exploration", TECH + "seeded histories of questions and frame changes in which one call into galpy, scipy, numpy, matplotlib, astropy or open() raises; the cluster is then compared with the physical model and with a never-failed cluster", "seeded search over operation, options, frame, failing call and exception kind; faults strike at calls out of clustertools, not between arbitrary statements"),
 "C06": ("exploration", TECH + "seeded histories of calls with caller-owned arguments, a third of them failing part way; every argument handed over so far is compared after every step", "seeded search over functions, options, argument forms and failing calls"),
 "C13": ("exploration", TECH + "seeded histories of additions, cuts, joins, rescalings and frame changes over a growing set of clusters, every live cluster compared star by star with an executable model after every step", "seeded search; stars added in Cartesian frames and the sky frame; one known finding (binaries added after evolution data)"),
 "C08": ("exploration", TECH + "simulated simulation codes append exactly known snapshots to their files while seeded readers advance at their own pace, interleaved in any order; every cluster handed out is compared with what was written", "seeded search over formats, options and interleavings; growth in whole snapshots"),
 "C09": ("exploration", TECH + "the simulated code dies at a seeded byte of a snapshot, or reads and opens fail or come back short at seeded calls; what each reader gets is compared with what was written, also on retry and after completion", "seeded search over formats, cut bytes and failing calls; hdf5 files are cut but h5py's own reads are not failed"),
 "C10": ("exploration", TECH + "seeded histories of frame changes and writes on a simulated disk that runs full, fails at open, write or close, or writes short; each file is compared with the physical model and read back, the cluster compared after every attempt, retries included", "seeded search over writers, options, frames and failing calls; partial files left by failed writes are allowed"),
 "C07": ("exploration", TECH + "caller threads, each on its own cluster, stopped at every library line and released one at a time by a seeded scheduler; every thread's answers and final cluster compared with the same program run alone", "seeded search over programs and interleavings at line granularity; plotting left out (pyplot's current figure is global)"),
 "C11": ("exploration", TECH + "the numba kernels' prange bodies run as simulated workers whose array loads and stores a seeded scheduler interleaves, over seeded worker counts and divisions; compared with a serial direct sum and with every other way the library has of computing them", "seeded search; kernels a rewrite puts beyond the interpreter fall back to compiled runs"),
 "C12": ("exploration", TECH + "random operations fed scripted draws from a simulated generator (extremes included) and checked against conservation laws; histories repeated under other generator states, clocks and hash seeds must give the same event log", "seeded search; slope of the power law by a fixed-seed KS test"),
 "C15": ("exploration", TECH + "seeded histories of orbit and star integrations forward and backward, frame changes and paths, each step and the whole history compared with an independent integration, stars matched to paths and tail paths compared with an independent nearest-point and averaging calculation", "seeded search in three static potentials; 2e-5 of the orbit per step; sky frames centred on the cluster excluded by the library"),
 "C17": ("exploration", TECH + "seeded histories of edits, frame changes and questions; each answer compared with an independent calculation of the defined quantity from the stars the cluster holds at that moment", "seeded search over histories, questions and options; fits left to an optimiser are not compared, answers that hang on rounding are dropped"),
 "C14": ("exploration", TECH + "the simulated code is stopped and continued in nested cont/ directories at seeded points while a reader advances; every cluster handed out is compared with what was written", "seeded search over formats, options and stop points; orbit files with single-file formats only"),
}
NA = {
 "C16": "Pure functions of their input: no schedule, clock, fault, I/O or history can change the answer, so there is nothing for a simulator to control.",
}
PENDING = "check under construction"
ALL = ["C%02d" % i for i in range(1, 18)]
checks = []
for p, (level, tech, note) in sorted(CHECKS.items()):
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
                       thorough_cmd="python3 check.py %s --tier thorough" % p,
                       technique=tech, level=level, level_note=note))
na = [dict(property=p, reason=NA.get(p, PENDING)) for p in ALL if p not in CHECKS]
man = dict(version=1, setup_cmd="true", hooks=dict(guard="CLUSTERTOOLS_SIM", enable="no hooks are needed: every seam is installed from outside", source_commits=[]),
           checks=checks, not_applicable=na,
           notes="Every check takes its randomness from VERIF_SEED; each run is its own forked process; see DESIGN.md.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
