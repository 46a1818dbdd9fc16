"""What each check runs: stages of (program, build variant, number of cases)."""
import os

PYDRIVER = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "C23.py")

SPECS = {
    "C01": {
        "rule": "one table text with load parameters per case; non-trivial when at least one value is loaded; distinct by text and parameters",
        "stages": [
            {"name": "asan", "variant": "asan", "quick": 30000, "thorough": 300000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 48, "thorough": 480, "chunk": 2}],
        "require": ["tables_with_names", "tables_cut_by_row_limit", "tables_with_skipped_columns"],
    },
    "C02": {
        "rule": "one refused request in one random session state per input; distinct by session state and kind of request",
        "stages": [{"name": "asan", "variant": "asan", "quick": 1800, "thorough": 18000}],
    },
    "C03": {
        "rule": "one random call history over up to four dataset names per input; distinct by sequence of calls; non-trivial with more than two calls",
        "stages": [{"name": "asan", "variant": "asan", "quick": 4000, "thorough": 40000}],
    },
    "C04": {
        "level": "fault_enumeration",
        "rule": "round trip: one dataset and separator per input; faults: one dataset and one byte position at which writing stops per input (all positions of each file)",
        "stages": [{"name": "roundtrip", "variant": "asan", "quick": 24000, "thorough": 240000},
                   {"name": "faults", "variant": "plain", "mode": "faults", "quick": 1200, "thorough": 12000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 48, "thorough": 480, "chunk": 2}],
        "require": ["round_trips", "write_stops"],
    },
    "C05": {
        "rule": "one dataset normalized once or three times per input; non-trivial with more than one value; distinct by values",
        "stages": [{"name": "asan", "variant": "asan", "quick": 7000, "thorough": 70000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 32, "thorough": 320, "chunk": 2}],
    },
    "C06": {
        "rule": "one (index,start,end) request per input, all triples around each small dataset; non-trivial when the index exists",
        "stages": [{"name": "asan", "variant": "asan", "quick": 400, "thorough": 8000},
                   {"name": "plain", "variant": "plain", "quick": 200, "thorough": 2000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 16, "thorough": 200, "chunk": 2}],
        "require": ["slices_returned", "requests_refused"],
    },
    "C07": {
        "rule": "one pair of equal-length subsequences and one distance per input; non-trivial for length above 1; distinct by values and distance",
        "stages": [{"name": "asan", "variant": "asan", "quick": 15000, "thorough": 150000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 192, "thorough": 1920, "chunk": 2}],
        "require": ["length_mismatches_refused"],
    },
    "C08": {
        "rule": "one pair of subsequences, distance and band ratio per input; non-trivial when both are longer than 1; distinct by values, distance and ratio",
        "stages": [{"name": "asan", "variant": "asan", "quick": 8000, "thorough": 80000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 128, "thorough": 1280, "chunk": 2}],
        "require": ["finite_distances", "no_alignment_in_band", "alignments_enumerated"],
    },
    "C09": {
        "rule": "one alignment request per input; non-trivial when one series is longer than 1; distinct by values, distance and ratio",
        "stages": [{"name": "asan", "variant": "asan", "quick": 9000, "thorough": 90000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 144, "thorough": 1440, "chunk": 2}],
        "require": ["finite_alignments"],
    },
    "C10": {
        "rule": "one pair of series, distance and cutoff per input; non-trivial for length above 1; distinct by values, distance and cutoff",
        "stages": [{"name": "asan", "variant": "asan", "quick": 3000, "thorough": 30000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 128, "thorough": 1280, "chunk": 2}],
        "require": ["cut_off", "exact_below_cutoff", "envelopes"],
    },
    "C11": {
        "rule": "one grouping run (data, distance, threshold, threads, mode, clock) per input; non-trivial when subsequences of length 2 exist; distinct by data and parameters",
        "stages": [{"name": "asan", "variant": "asan", "quick": 8000, "thorough": 80000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 300, "thorough": 3000, "chunk": 2}],
        "require": ["whole_series_groupings", "full_groupings", "multithreaded_groupings"],
    },
    "C12": {
        "rule": "one length of one grouping run per input; non-trivial with more than one subsequence; distinct by data, parameters and length",
        "stages": [{"name": "asan", "variant": "asan", "quick": 16000, "thorough": 160000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 600, "thorough": 6000, "chunk": 2}],
        "require": ["joined", "founded", "joined_exactly_at_limit"],
    },
    "C13": {
        "rule": "one multi-threaded grouping run under a perturbed schedule per input; distinct by data and parameters",
        "stages": [{"name": "tsan", "variant": "tsan", "quick": 480, "thorough": 5000, "chunk": 3},
                   {"name": "delays", "variant": "plain", "quick": 3200, "thorough": 32000, "chunk": 25, "hang": 30}],
        "require": ["schedules_compared"],
    },
    "C14": {
        "rule": "one best-match query per input; non-trivial with more than one group; distinct by data, grouping, band ratio and query",
        "stages": [{"name": "asan", "variant": "asan", "quick": 8000, "thorough": 80000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 300, "thorough": 3000, "chunk": 2}],
        "require": ["matches_judged", "matches_of_other_length", "matches_in_larger_groups", "queries_without_admissible_group"],
    },
    "C15": {
        "rule": "one k-best query per input; non-trivial with more than one admissible subsequence; distinct by data, grouping, k, ke, band ratio and query",
        "stages": [{"name": "asan", "variant": "asan", "quick": 10000, "thorough": 100000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 375, "thorough": 3750, "chunk": 2}],
        "require": ["selections_judged", "partial_examinations_judged", "more_requested_than_exist"],
    },
    "C16": {
        "rule": "one exhaustive query per input; non-trivial with more than one subsequence; distinct by data, k, band ratio and query",
        "stages": [{"name": "asan", "variant": "asan", "quick": 10000, "thorough": 100000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 375, "thorough": 3750, "chunk": 2}],
        "require": ["selective_searches", "compared_with_grouped"],
    },
    "C17": {
        "rule": "one reduced query per input; non-trivial with more than one subsequence; distinct by data, block size, k, band ratio and query",
        "stages": [{"name": "asan", "variant": "asan", "quick": 9000, "thorough": 90000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 450, "thorough": 4500, "chunk": 2}],
        "require": ["reduced_searches"],
    },
    "C18": {
        "rule": "one restored generation per input; non-trivial with more than one group; distinct by data, parameters and chain of saves and loads",
        "stages": [{"name": "asan", "variant": "asan", "quick": 6000, "thorough": 60000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 32, "thorough": 320, "chunk": 2}],
        "require": ["text_generations", "binary_generations", "best_matches_compared", "kbest_compared"],
    },
    "C19": {
        "level": "fault_enumeration",
        "rule": "damage: one damaged or foreign file per input (all truncations, every byte with several masks); faults: one byte position at which writing stops per input (all positions)",
        "stages": [{"name": "damage", "variant": "asan", "quick": 288, "thorough": 2880, "chunk": 3},
                   {"name": "faults", "variant": "plain", "mode": "faults", "quick": 720, "thorough": 7200}],
        "require": ["refused", "write_stops", "foreign_members"],
    },
    "C20": {
        "rule": "histories: one sequence of surrounding calls per input; memory: one question repeated 448 times per input",
        "stages": [{"name": "histories", "variant": "asan", "quick": 4000, "thorough": 40000},
                   {"name": "memory", "variant": "plain", "mode": "memory", "quick": 352, "thorough": 3520,
                    "env": {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}},
                   {"name": "often", "variant": "plain", "mode": "often", "hang": 240, "quick": 44, "thorough": 440, "chunk": 1}],
        "require": ["answers_repeated", "repetitions"],
    },
    "C22": {
        "rule": "one script of command lines per input; distinct by the lines; non-trivial with more than four lines",
        "stages": [{"name": "asan", "variant": "asan", "also": ["genexcli"], "quick": 4500, "thorough": 45000}],
        "require": ["commands_refused", "commands_carried_out", "malformed_lines", "best_matches", "kbest_searches", "exhaustive_searches", "byte_scripts"],
    },
    "C23": {
        "rule": "one random sequence of calls of the Python module per input; distinct by the calls with their arguments",
        "stages": [{"name": "differential", "variant": "pic", "also": ["pygenex"], "quick": 3000, "thorough": 30000,
                    "env": {"GENEX_PYDRIVER": PYDRIVER}},
                   {"name": "asan", "variant": "pic", "also": ["pygenex"], "also_variant": "asanpic", "quick": 750, "thorough": 7500,
                    "env": {"GENEX_PYDRIVER": PYDRIVER, "GENEX_PREASAN": "1"}}],
        "require": ["calls_refused", "calls_accepted", "python_bad_types"],
    },
    "C24": {
        "rule": "one sequence of operations on four series objects per input; distinct by operations and values",
        "stages": [{"name": "asan", "variant": "asan", "quick": 18000, "thorough": 180000},
                   {"name": "large", "variant": "plain", "mode": "large", "hang": 240, "quick": 300, "thorough": 3000, "chunk": 5}],
        "require": ["additions", "additions_refused", "envelopes", "equal_pairs", "different_pairs"],
    },
    "C21": {
        "rule": "one random session per input; distinct by sequence of calls and outcomes",
        "stages": [{"name": "asan", "variant": "asan", "quick": 24000, "thorough": 240000, "hang": 60},
                   {"name": "memory", "variant": "plain", "mode": "memory", "quick": 1200, "thorough": 12000,
                    "env": {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}},
                   {"name": "memcheck", "variant": "vg", "mode": "small", "quick": 640, "thorough": 6400, "chunk": 10, "hang": 150,
                    "wrap": ["valgrind", "-q", "--error-exitcode=96", "--exit-on-first-error=yes", "--num-callers=20"]}],
        "require": ["calls_refused", "calls_accepted", "sessions_repeated"],
    },
}
