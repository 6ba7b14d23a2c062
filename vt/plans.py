"""Which models, generators and case streams decide each property."""
from collections import namedtuple
from . import gen_eval as ge, gen_geom as gg, gen_names as gn, gen_records as gr, gen_data as gd, gen_config as gc, gen_cloud as gl, gen_system as gs, gen_logging as go, report


class Stream:
    def __init__(self, name, module, make=None, prepare=None, post=None, slim=None, crew=False):
        self.name, self.module, self.make = name, module, make
        self.prepare, self.post, self.slim, self.crew = prepare, post, slim, crew


def session_post(c, obs):
    return {"steps": [report.parsed(s) if s["op"] == "query" else s for s in obs["steps"]]}


STREAMS = {s.name: s for s in [
    Stream("filter", "Trace_Filter", ge.filter_case),
    Stream("frame", "Trace_Frame", ge.lively(ge.frame_case)),
    Stream("overlap-frame", "Trace_Frame", ge.lively(lambda r: ge.frame_case(r, True))),
    Stream("big-frame", "Trace_Frame", ge.lively(ge.big_frame)),
    Stream("far-frame", "Trace_Frame", ge.lively(ge.far_frame)),
    Stream("session", "Trace_Session", ge.lively(ge.session_case), post=session_post),
    Stream("perfect-session", "Trace_Session", ge.lively(lambda r: ge.session_case(r, r.choice(["perfect", "perfect", "silent", "empty"]))),
           post=session_post),
    Stream("long-session", "Trace_Session", ge.lively(ge.long_session), post=session_post),
    Stream("endless-session", "Trace_Session", ge.lively(ge.endless_session), post=session_post),
    Stream("huge-frame", "Trace_Frame", ge.lively(ge.huge_frame)),
    Stream("dense-session", "Trace_Session", ge.lively(ge.dense_session), post=session_post),
    Stream("crowded-session", "Trace_Session", ge.lively(ge.crowded_session), post=session_post),
    Stream("fleet-session", "Trace_Session", ge.lively(ge.fleet_session), post=session_post),
    Stream("score", "Trace_Score", gg.score_case),
    Stream("overlap", "Trace_Score", lambda r: gg.score_case(r, True)),
    Stream("math", "Trace_Math", gg.math_case),
    Stream("box", "Trace_Box", gg.box_case),
    Stream("lookup", "Trace_Lookup", gn.lookup_case),
    Stream("records", "Trace_Record", gr.record_case, slim=gr.slim),
    Stream("dataset", "Trace_Dataset", gd.dataset_case, prepare=gd.prepare, slim=gd.slim),
    Stream("big-dataset", "Trace_Dataset", gd.big_dataset, prepare=gd.prepare, slim=gd.slim),
    Stream("faulty-dataset", "Trace_Dataset", gd.faulty_case, prepare=gd.prepare, slim=gd.slim),
    Stream("big-faulty", "Trace_Dataset", lambda r: gd.faulty_case(r, True), prepare=gd.prepare, slim=gd.slim),
    Stream("links", "Trace_Dataset", gd.faulty_case, prepare=gd.prepare, slim=gd.slim),
    Stream("scenario", "Trace_Config", gc.config_case, prepare=gc.prepare, post=gc.post),
    Stream("cloud", "Trace_Cloud", gl.cloud_case, prepare=gl.prepare, slim=gl.slim),
    Stream("large-cloud", "Trace_Cloud", gl.long_case, prepare=gl.prepare, slim=gl.slim),
    Stream("system", "Trace_System", gs.system_case, prepare=gs.prepare, slim=gs.slim, post=gs.post),
    Stream("logging", "Trace_Logging", go.logging_case, prepare=go.prepare),
    Stream("names", "Trace_Names", gn.names_case),
]}

# The same cases, by several threads of one process at the same time and each case twice.
for _s in ["filter", "frame", "overlap-frame", "session", "score", "overlap", "math", "box", "lookup", "names", "records", "dataset",
           "faulty-dataset", "cloud"]:
    STREAMS["crew-" + _s] = Stream("crew-" + _s, *(getattr(STREAMS[_s], k) for k in ("module", "make", "prepare", "post", "slim")), crew=True)

ASSUMPTIONS = [
    "The crate is observed through its public API by a debug build made from /repo's working tree.",
    "Inputs lie on an integer lattice (quarter metres, Pythagorean or 7.5 degree angles, integer quaternions); "
    "what the specification cannot decide exactly in integers (values within the stated rounding margin of a bound) "
    "is accepted either way.",
    "TLC and the CommunityModules evaluate the specification correctly.",
]

Plan = namedtuple("Plan", "models generated random")
PLANS = {}


def plan(pid, models=(), generated=(), random=()):
    PLANS[pid] = Plan(list(models), list(generated), list(random))


MATCH = ("MC_Matching", {}, {})
METRICS = ("MC_Metrics", {}, {})
MANAGER = ("MC_Manager", {}, {})
SYSTEM = ("MC_System", {}, {"MaxFrames": 3})
GEOM = ("MC_Geometry", {}, {})

FRAMES = ("frame", "Gen_Frame", ge.frames_from, {}, {"NE": 3, "NG": 3})
SESSIONS = ("session", "Gen_Session", ge.sessions_from, {}, {"N": 5})

plan("C01", [MATCH], [FRAMES], [("frame", 1600), ("far-frame", 300), ("big-frame", 100), ("huge-frame", 6), ("session", 300), ("crew-frame", 200)])
plan("C02", [MATCH], [FRAMES], [("frame", 1600), ("far-frame", 1600), ("big-frame", 200), ("huge-frame", 8), ("session", 300), ("crew-frame", 200)])
plan("C03", [], [FRAMES], [("frame", 1600), ("overlap-frame", 800), ("session", 300), ("crew-frame", 200), ("crew-overlap-frame", 200)])
plan("C04", [MANAGER], [FRAMES], [("frame", 2000), ("overlap-frame", 300), ("huge-frame", 6), ("session", 300), ("crew-frame", 200)])
plan("C05", [], [("filter", "Gen_Filter", ge.filters_from, {}, {"Limits": "{0,1,3}"})], [("filter", 4000), ("session", 300), ("system", 300), ("crew-filter", 400)])
plan("C06", [METRICS], [SESSIONS], [("session", 1200), ("long-session", 100), ("dense-session", 100), ("crowded-session", 6), ("endless-session", 8), ("crew-session", 150)])
plan("C07", [METRICS], [SESSIONS], [("session", 1200), ("long-session", 100), ("dense-session", 100), ("crowded-session", 6), ("endless-session", 8), ("crew-session", 150)])
plan("C08", [MANAGER, SYSTEM, ("MC_Fleet", {}, {"N": 3, "Steps": 7})], [SESSIONS], [("session", 800), ("fleet-session", 150), ("long-session", 100), ("endless-session", 8), ("crowded-session", 2), ("system", 400), ("crew-session", 150)])
plan("C09", [MANAGER], [SESSIONS], [("session", 400), ("perfect-session", 1000), ("long-session", 60), ("endless-session", 6), ("crew-session", 150)])
plan("C10", [("MC_Lookup", {"N": 3}, {"N": 4}), SYSTEM],
     [("lookup", "Gen_Lookup", lambda l: [gn.lookup_from(x) for x in l], {"N": 3}, {"N": 4})], [("lookup", 2000), ("system", 400), ("crew-lookup", 200)])
plan("C11", [GEOM], [("score", "Gen_Score", gg.scores_from, {"Heights": "{0}"}, {"Turns": "AllTurns"})], [("score", 3000), ("crew-score", 200)])
plan("C12", [GEOM], [("overlap", "Gen_Score", gg.scores_from, {}, {"Turns": "AllTurns"})], [("overlap", 3000), ("crew-overlap", 200)])
plan("C13", [GEOM], [("math", "Gen_Math", gg.maths_from, {}, {"Second": "Positive"})], [("math", 4000), ("box", 400), ("crew-math", 200)])
plan("C14", [GEOM], [], [("box", 4000), ("crew-box", 200)])
plan("C22", [METRICS], [SESSIONS], [("session", 1000), ("long-session", 100), ("system", 300), ("crew-session", 150)])

plan("C19", [("MC_Labels", {}, {})], [("names", "Gen_Names", gn.pack_names, {}, {})], [("names", 600), ("crew-names", 60)])
plan("C20", [], [("records", "Gen_Records", gr.from_tlc, {}, {})], [("records", 4000), ("crew-records", 200)])

plan("C15", [("MC_Dataset", {}, {"K": 3})],
     [("links", "Gen_Links", lambda l: gd.from_links(l) + gd.file_faults(l), {}, {"Dangling": 1})],
     [("faulty-dataset", 2000), ("big-faulty", 24), ("dataset", 200), ("system", 300), ("crew-faulty-dataset", 200)])
plan("C16", [SYSTEM], [], [("dataset", 600), ("big-dataset", 4), ("system", 500), ("crew-dataset", 120)])
plan("C17", [("MC_Dataset", {}, {})], [], [("dataset", 800), ("big-dataset", 4), ("crew-dataset", 120)])
plan("C18", [SYSTEM], [("scenario", "Gen_Scenario", gc.from_tlc, {}, {})], [("scenario", 600), ("system", 400)])
plan("C23", [("MC_Logging", {}, {"N": 4})], [("logging", "Gen_Logging", go.from_tlc, {}, {"N": 4})], [("logging", 1200)])
plan("C21", [], [("cloud", "Gen_Cloud", gl.from_tlc, {}, {"N": 220})], [("cloud", 400), ("large-cloud", 16), ("crew-cloud", 80)])

# What each check covers; also the level notes of MANIFEST.json and the table of DESIGN.md.
COVERS = {
    "C01": "Every outcome of matching recorded on frames of up to 12 (big: 60, huge: 300, far: kilometres apart) estimates and truths, boxes without extent, and in every frame of recorded sessions, is a one-to-one relation over same-label objects; TLC proves the greedy relation well defined for all distance tables up to 3x3 (ties included). All frames of up to two (thorough: three) estimates and truths of two labels on a line of three places are enumerated by TLC (Gen_Frame). Also by several threads of one process at work on different cases.",
    "C02": "Recorded pairings are stable under exact squared integer distances: no unpaired same-label pair is strictly closer than both partners; ties may go either way; distances from 1 mm apart to hundreds of kilometres, frames of hundreds of objects, boxes without extent. All frames of up to two (thorough: three) estimates and truths of two labels on a line of three places are enumerated by TLC (Gen_Frame). Also by several threads of one process at work on different cases.",
    "C03": "Verdicts of all four criteria per result against the label's threshold, exactly (center) or with a rounding margin (plane, overlaps); lists, their order and their disjointness; thresholds at, just below and just above the score, negative ones, ones above 1 and infinite ones. All frames of up to two (thorough: three) estimates and truths of two labels on a line of three places are enumerated by TLC (Gen_Frame). Also by several threads of one process at work on different cases.",
    "C04": "For one-to-one frames, missed truths are exactly those not in a true positive; identity is by all fields (IDs equal, empty, absent, twins, dense frames of hundreds of objects). All frames of up to two (thorough: three) estimates and truths of two labels on a line of three places are enumerated by TLC (Gen_Frame). Also by several threads of one process at work on different cases.",
    "C05": "Filter results equal the specification's subsequence for every combination of target labels, limits (strict, zero, negative, infinite, on the boundary), distances from the ego pose, confidences and uuid lists; objects come back unmodified. The decision table (configurations by kinds of objects) is enumerated by TLC (Gen_Filter). Also by several threads of one process at work on different cases.",
    "C06": "AP of every label, criterion and threshold over recorded sessions equals the exact rational of the specification within 1e-6; with ties in confidence it lies between those of the two extreme orders of the tied results; up to hundreds of results in a frame and hundreds of frames in a session. All sessions of up to three (thorough: five) frames of seven kinds are enumerated by TLC (Gen_Session). Also by several threads of one process at work on different cases.",
    "C07": "The same for APH, headings in tenths of degrees or 15 degree steps, opposite quaternions, half turns, pitched and rolled objects. All sessions of up to three (thorough: five) frames of seven kinds are enumerated by TLC (Gen_Session). Also by several threads of one process at work on different cases.",
    "C08": "Histories: every step's frame list and every score is a function of the frames added so far; TLC checks the Manager machine, Fleet adds several managers (interleaved, cloned, in threads of their own), System composes it with loading and lookup; the caller may take frames out of the list or turn it; recorded sessions (up to hundreds of frames or results) and whole pipelines, also different content at the same place in one process, are validated step by step. All sessions of up to three (thorough: five) frames of seven kinds are enumerated by TLC (Gen_Session). Also by several threads of one process at work on different cases.",
    "C09": "Sessions of copies score 1 on every criterion, silent ones 0, empty ones 0; permutation and duplication of frames; metamorphic clauses of SessionChecks; sessions of hundreds of frames, thresholds down to a centimetre. All sessions of up to three (thorough: five) frames of seven kinds are enumerated by TLC (Gen_Session). Also by several threads of one process at work on different cases.",
    "C10": "All files of up to N frame times and queries around every 75 ms boundary enumerated by TLC (Gen_Lookup), plus random ones in microseconds, also before 1970 and decades apart; the result is a nearest frame within the limit or nothing. Also by several threads of one process at work on different cases.",
    "C11": "Center and plane distances recovered exactly from the threshold at which the public verdict flips, compared with exact integer squares (plane: irrational sums bracketed by integer square roots); common corners, flat boxes, boxes at the origin. Pairs of boxes on a small lattice (turns, offsets, heights, sizes) are enumerated by TLC (Gen_Score). Also by several threads of one process at work on different cases.",
    "C12": "Overlap scores recovered by bisection, compared with exact polygon clipping in integers for boxes turned by Pythagorean angles, touching, nested, disjoint, sharing edges. Pairs of boxes on a small lattice (turns, offsets, heights, sizes) are enumerated by TLC (Gen_Score). Also by several threads of one process at work on different cases.",
    "C13": "Rotation, inverse, composition, quaternion/matrix/Euler agreement and box moves, against integer quaternions (exact rationals), incl. states built by sequences of operations, turns down to a millionth, pitches up to 89.9 degrees, long and short quaternions. All compositions of rotations with quaternion components -1, 0, 1 are enumerated by TLC (Gen_Math). Also by several threads of one process at work on different cases.",
    "C14": "Footprint order and corners, size, heading and heading error per box, exact rationals with margins of 1e-6; full turns of orientations, small, flat and huge boxes, steep pitches, the origin, far positions. Also by several threads of one process at work on different cases.",
    "C15": "Every link graph of up to K records and every single-file fault (missing, cut, null, not UTF-8, NaN, ...) enumerated by TLC is written as a dataset and loaded; the verdict must equal the specification's Consistent; plus random datasets with random faults, also at the place of an earlier dataset in the same process. Also by several threads of one process at work on different cases.",
    "C16": "Frames loaded for evaluation from random datasets (turned ego and sensor poses, sweeps, several scenes, radar, lidar, cameras): one per sample, in order, annotations in the ego frame exactly once, identity, visibility, points, velocity; other content at the same place in one process. Also by several threads of one process at work on different cases.",
    "C17": "Iteration and links of random datasets: each record once, time order, next/prev/first/last, instances' annotations, sample data by channel, log and map, directories; other content at the same place in one process. Also by several threads of one process at work on different cases.",
    "C18": "Every scenario fault enumerated by TLC plus random scenarios: rejected or configured as written; numbers in all notations (infinite ones too), sequences, directories, several configurations and rewritten files in one process.",
    "C19": "All category names and letter cases of Gen_Names and random ones; labels, tasks, frames, unknown names; 3D/2D kinds; label names of objects. Also by several threads of one process at work on different cases.",
    "C20": "Every record variant of Gen_Records and random records of all thirteen tables: fields as written, times to the microsecond in all notations, tokens, write/read back equality; records with a field missing, null, misspelt, of another kind or of another size rejected. Also by several threads of one process at work on different cases.",
    "C21": "Files of every length up to N bytes and random and large ones (megabytes): rows and columns as a function of the bytes, compared bit by bit (all bit patterns, also NaNs), damaged names and lengths rejected; png and jpeg pictures pixel by pixel, damaged ones rejected; other content at the same place in one process. Also by several threads of one process at work on different cases.",
    "C22": "The printed report of recorded sessions parsed and compared cell by cell with the labels, thresholds and scores of the specification. All sessions of up to three (thorough: five) frames of seven kinds are enumerated by TLC (Gen_Session). Also by several threads of one process at work on different cases.",
    "C23": "Histories of configurations, scenario files and messages in one process: which messages reach which file at which level; TLC explores all histories of length N of the Logging machine. All histories of three (thorough: four) steps are enumerated by TLC and run against the crate (Gen_Logging).",
}
