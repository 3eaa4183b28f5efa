#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('fuzzing of raw text and structured token sequences; tiling invariant over the pulled tokens', 'every pull of every generated text is checked against the source; trusts the hook that re-exports token types'),
 'C02': ('property-based testing; positions recomputed from the source by an independent scanner', 'start and end of every token of every generated text are compared with an independent computation'),
 'C03': ('property-based testing against an independent longest-match model of punctuators and names', 'the model is a table of the ES2018 punctuators; bounded text length'),
 'C04': ('property-based testing; literals generated from a known value, exact oracle by big-number arithmetic', 'value tolerance covers accumulated rounding only; hex/octal/binary and small integers exact'),
 'C05': ('grammar-based generation of string literals whose extent is known by construction', 'generated literals use every ES2018 escape form; surrounding text varies'),
 'C06': ('grammar-based generation of nested templates whose chunks are known by construction', 'the parser is observed through a recording tokenizer'),
 'C07': ('grammar-based generation of regular expressions whose extent is known by construction', 'pattern syntax inside the delimiters is free'),
 'C08': ('property-based generation of comments, blanks and line breaks known by construction', 'bodies and extents compared exactly'),
 'C09': ('generation of malformed tokens at every position; the failure must be reported at or before it', 'covers the listed ways of malforming a token; internal faults count as failures'),
 'C10': ('grammar-based generation of well-formed expressions; acceptance oracle', 'generator validated against acorn and V8 during development'),
 'C11': ('grammar-based generation of well-formed statements; acceptance oracle', 'generator validated against acorn and V8 during development'),
 'C12': ('grammar-based generation of functions, classes and patterns; acceptance oracle', 'generator validated against acorn and V8 during development'),
 'C13': ('grammar-based generation of imports and exports in legal and illegal places', 'generator validated against acorn during development'),
 'C14': ('differential testing of the token stream the parser pulls against the one known by construction', 'a recording tokenizer wraps the real one'),
 'C15': ('mutation fuzzing of well-formed modules with an independent ES2018 recogniser as oracle', 'the recogniser is a deliberate superset of the grammar, so what it rejects must be rejected'),
 'C16': ('generation of statement pairs and separators with known outcome; independent recogniser', 'outcome follows from the semicolon insertion rules by construction'),
 'C17': ('metamorphic testing: the same tokens in another layout', 'accept/reject and token streams compared'),
 'C18': ('property-based testing of words times positions with known outcome', 'all reserved and contextual words; positions embedded in generated contexts'),
 'C19': ('property-based testing of nested contexts with known outcome', 'contexts nested to bounded depth, model keeps the grammar parameters'),
 'C20': ('metamorphic testing: composition of accepted and rejected fragments', 'fragments generated or mutated; contexts nested'),
 'C21': ('fuzzing of arbitrary, mutated and grammar-based text for faults, with a counting tokenizer and forked workers', 'debug assertions and overflow checks on; bounded length and nesting'),
 'C22': ('differential testing of a replaying tokenizer with perturbed trivia, ranges and text', 'token lists come from the real tokenizer'),
 'C25': ('model-based testing of histories: parses, pulls, copies and cut-off parses interleaved on one and several threads', 'every step is compared with the text on its own; histories that need the past of the process are re-run as one history'),
 'C26': ('fuzzing of programs, soups, long and repeated texts under a counting allocator; bounds on memory in use, asked for and kept', 'bytes are counted exactly per thread; the proportions allowed are far above what the code needs'),
 'C27': ('property-based testing: at each point of a text all hints and reused slots side by side, and several walks through one text', 'which character comes next is read off the text itself'),
 'C23': ('differential testing of the program against the library over generated files', 'runs the built program on scratch files'),
}
checks = []
for i in sorted(T):
    checks.append({'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + i,
                   'technique': T[i][0], 'level': 'exploration', 'level_note': T[i][1]})
m = {'version': 1, 'setup_cmd': './run.sh setup',
     'hooks': {'guard': 'cfg(jsparse_verif)', 'enable': 'RUSTFLAGS="--cfg jsparse_verif"', 'source_commits': [os.popen('git -C /repo rev-parse 6d92d03').read().strip()]},
     'checks': checks,
     'not_applicable': [{'property': 'C24', 'reason': 'src/ast is commented out of src/lib.rs and does not compile: there is no code to run generated trees through, and nothing builds one.'}],
     'notes': 'VERIF_SEED selects the random choices. ./run.sh replay FILE replays a counterexample.'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
