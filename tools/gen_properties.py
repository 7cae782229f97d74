#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here in readable form)."""
import json, os
A = "cubing_core/src/alg/"
K = "cubing_core/src/kpuzzle/"
P = K + "packed/"
props = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    props.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Alg text is accepted and structured exactly as the notation's grammar says",
 "For every input string, parsing it as an alg, a single move or a bare move family either yields exactly the one structure the alg notation assigns to it (moves with layer or layer-range prefix, amount and prime; `++`/`--` and `n+`/`n-` suffixes; `/`; `.`; newlines; line comments; repeated groupings; Square-1 tuples; commutators and conjugates) or is refused with an error. Text outside the notation (two elements crowded together without a separating space, unbalanced brackets, numbers that do not fit, stray characters) is always refused, extra spaces never change the result, and the parser never crashes.",
 ["inputs"], "every Unicode string, as alg, as move, as quantum move",
 "the tests parse some forty hand-written strings; the grammar is context-free and its corner cases (number overflow, crowding next to every kind of node, tuple versus range move, comments inside brackets) are only reached by enumerating strings",
 [A+"parse.rs"], [("recursive-descent parser: parse_alg, parse_node, parse_move and the crowding check", A+"parse.rs:parse_alg, parse_node, parse_move")],
 observe=["str::parse::<Alg>()", "str::parse::<Move>()", "str::parse::<QuantumMove>()", "TryFrom<&str>"])

prop("C02", "Printing an alg never fails, is canonical, and parses back to the same alg",
 "Every alg obtained by parsing, by inverting or by assembling well-formed nodes prints without failing, and the printed text is accepted by the parser. Parsing the printed text gives back an equal alg, up to two notational identities (a one-fold grouping around a single commutator or conjugate prints as the bare bracket, and a line comment that is not followed by a newline gets one when something follows it). The text is the canonical notation: single spaces, no amount when it is 1, a trailing prime for negative amounts.",
 ["inputs", "histories"], "every alg value that parsing, inversion and node-by-node construction can produce",
 "the tests print a dozen algs; print/parse agreement must hold for every nesting, amount, prefix, special suffix and comment placement, including the algs that only inversion produces",
 [A+"alg.rs", A+"move.rs", A+"grouping.rs", A+"commutator.rs", A+"conjugate.rs", A+"amount.rs", A+"quantum_move.rs", A+"line_comment.rs", A+"newline.rs", A+"pause.rs", A+"parse.rs"],
 [("Display implementations and space_between", A+"alg.rs:space_between; "+A+"move.rs:Display; "+A+"grouping.rs:Display"), ("amount formatting", A+"amount.rs:fmt_amount")],
 observe=["ToString/Display of Alg, Move, QuantumMove", "str::parse::<Alg>()"])

prop("C03", "Inverting an alg reverses it and inverts every element, and is its own inverse",
 "The inverse of an alg lists its elements in reverse order with each element inverted: a move or grouping gets the opposite amount, a commutator swaps its two parts, a conjugate keeps its setup part and inverts the other, a Square-1 tuple negates both numbers and stays a tuple, and `/`, pauses, newlines and comments are unchanged. The original alg is not modified, and inverting twice gives the original alg back.",
 ["inputs"], "every alg (for the double inversion: every alg except one that spells a Square-1 tuple's moves inside an explicit inverse grouping)",
 "the tests invert seven algs; the rule must hold for every node kind at every nesting depth and every amount and prefix",
 [A+"alg.rs", A+"alg_node.rs", A+"move.rs", A+"grouping.rs", A+"commutator.rs", A+"conjugate.rs", A+"special_notation.rs"],
 [("invert on Alg and on each node kind", A+"alg.rs:invert; "+A+"alg_node.rs:invert; "+A+"grouping.rs:invert, square1_tuple; "+A+"move.rs:invert")],
 observe=["Alg::invert", "Move::invert", "AlgNode::invert"])

prop("C04", "Algs, moves and move families serialize as their text and deserialize back",
 "Serializing an alg, a move or a move family gives a JSON string that is exactly its printed text. Deserializing a JSON string succeeds exactly when parsing that text succeeds, with an equal value; JSON that is not a string is refused with an error.",
 ["inputs"], "every alg, move, move family, and every JSON value",
 "no test serializes an alg or a move; only the keys of a few puzzle definitions are deserialized",
 [A+"alg.rs", A+"move.rs", A+"quantum_move.rs"], [("Serialize/Deserialize implementations", A+"alg.rs; "+A+"move.rs; "+A+"quantum_move.rs")],
 observe=["serde_json::to_string", "serde_json::from_str", "serde_json::from_slice", "serde_json::from_value"])

prop("C05", "Compile-time alg and move literals equal run-time parsing",
 "For every string literal, the compile-time alg and move macros produce exactly the value that parsing the same string at run time produces, including layer prefixes, amounts and special suffixes. A literal that run-time parsing refuses does not compile.",
 ["programs", "inputs"], "every program that passes a string literal to parse_alg! or parse_move!",
 "the macro tests use the literals \"R\" and \"R U R'\" only; no test checks a prefix, a special suffix or a refused literal",
 ["cubing_macros/src/lib.rs"], [("proc macros parse_alg and parse_move", "cubing_macros/src/lib.rs")],
 observe=["parse_alg!", "parse_move!", "rustc diagnostics"])

prop("C06", "The command-line tool accepts exactly valid algs and prints their inverse",
 "`alg parse` exits with success exactly when the given text (argument or standard input) is a valid alg. `alg invert` prints exactly the canonical text of the inverse followed by a newline and exits with success for a valid alg, and for anything else prints nothing on standard output and exits with failure, without crashing.",
 ["inputs"], "every text, given as argument or on standard input",
 "the command-line tool has no tests",
 ["alg_cli/main.rs"], [("main", "alg_cli/main.rs:main")], observe=["exit status and standard output of the alg binary"])

prop("C07", "Building an alg from pieces concatenates them in order",
 "An alg built from a sequence of pushed algs and nodes, with or without an initial piece, consists of exactly the nodes of those pieces in the order pushed. Pushing never flattens, drops, merges or reorders nodes, and the pieces that were pushed are unchanged.",
 ["histories"], "every sequence of pushes of algs and nodes of any kind",
 "one test pushes a thousand moves; empty pieces, algs mixed with nodes, groupings and an initial piece are never built",
 [A+"alg_builder.rs", A+"alg_node.rs"], [("AlgBuilder::push and to_alg", A+"alg_builder.rs")], observe=["AlgBuilder::new, push, to_alg", "From<...> for AlgNode"])

prop("C08", "Transformations of a puzzle form a group under composition",
 "On every puzzle, composing transformations is associative, the identity transformation changes nothing, and every transformation composed with its inverse (on either side) gives the identity. Composition is piece by piece within each orbit: the result takes each position's source from the first transformation through the second, and orientation changes add up modulo the orbit's number of orientations; writing the result into an existing transformation gives the same value as returning a new one.",
 ["inputs", "configurations"], "every puzzle definition (any number of orbits, 1 to 255 pieces, 1 to 107 orientations) and all transformations on it",
 "the tests compose a handful of 3x3x3 moves; the laws quantify over all puzzles, orbit sizes, orientation counts and transformations",
 [P+"ktransformation.rs", P+"packed_orbit_data.rs", P+"kpuzzle.rs"],
 [("apply_transformation(_into), invert", P+"ktransformation.rs"), ("identity_transformation", P+"kpuzzle.rs:identity_transformation")],
 state=[("packed bytes", "per orbit: permutation bytes then orientation delta bytes", P+"packed_orbit_data.rs")],
 observe=["KTransformation::apply_transformation, apply_transformation_into, invert, to_data"])

prop("C09", "Applying transformations to patterns is a group action",
 "Applying a transformation moves each position's piece label and orientation as the transformation's data says, also for patterns with repeated (indistinguishable) pieces. Applying two transformations one after the other equals applying their composition, the identity leaves every pattern unchanged, and applying the inverse restores the pattern; applying into an existing pattern gives the same value as returning a new one.",
 ["inputs", "configurations", "histories"], "every puzzle, pattern and sequence of transformations",
 "the tests apply a few moves to one pattern of the 3x3x3; nothing checks other orbit sizes, orientation moduli or repeated pieces",
 [P+"kpattern.rs", P+"orientation_packer.rs"], [("apply_transformation(_into)", P+"kpattern.rs"), ("lookup-table orientation arithmetic", P+"orientation_packer.rs:transform")],
 observe=["KPattern::apply_transformation, apply_transformation_into, apply_move, apply_alg, to_data"])

prop("C10", "Repeating a move or grouping n times has exactly the effect of n applications",
 "A move or grouping with amount n has the effect of n successive applications when n is positive, of the inverse applied |n| times when n is negative, and no effect when n is 0. This holds for every amount that can be written, however large, and the result is computed in time that does not grow with the amount itself.",
 ["inputs"], "every transformation and every 32-bit amount (except the most negative one, which notation cannot express)",
 "the tests use amounts up to 10; square-and-multiply has a different path for every bit pattern of the amount",
 [P+"ktransformation.rs", P+"kpuzzle.rs"], [("self_multiply", P+"ktransformation.rs:self_multiply")],
 observe=["KPuzzle::transformation_from_move", "KPuzzle::transformation_from_alg"])

prop("C11", "An alg's effect is the composition of its elements' effects",
 "The transformation of an alg is the composition of its elements' transformations in reading order: a grouping repeats its content, [A, B] means A B A' B', [A: B] means A B A', and pauses, newlines and comments have no effect. Applying an alg to a pattern equals applying its transformation. An alg that uses any move the puzzle does not define is refused with an error, wherever the move occurs, and never partly applied.",
 ["inputs", "configurations"], "every puzzle and every alg over its moves and over undefined moves",
 "the tests evaluate about ten algs on two puzzles",
 [P+"kpuzzle.rs", P+"kpattern.rs"], [("transformation_from_alg, transformation_from_alg_node", P+"kpuzzle.rs"), ("apply_alg, apply_move", P+"kpattern.rs")],
 observe=["KPuzzle::transformation_from_alg", "KPattern::apply_alg"])

prop("C12", "Doing an alg and then its inverse restores the puzzle",
 "On every puzzle whose moves are each defined once per family (with `/` self-inverse and the two Square-1 layers commuting, as their notation assumes), the transformation of an alg's inverse is the inverse of the alg's transformation. So applying an alg and then its inverse, in either order, returns any pattern to where it was.",
 ["inputs", "configurations"], "every such puzzle, every alg and every pattern",
 "the tests check one equation of this kind on the 3x3x3",
 [A+"grouping.rs", A+"commutator.rs", A+"conjugate.rs", A+"move.rs", P+"kpuzzle.rs", P+"ktransformation.rs"],
 [("structural inversion agrees with group inversion", A+"alg.rs:invert; "+P+"ktransformation.rs:invert; "+P+"kpuzzle.rs:transformation_from_alg_node")],
 observe=["Alg::invert", "KPuzzle::transformation_from_alg", "KPattern::apply_alg"])

prop("C13", "A move resolves to its own definition, in a fixed order of preference",
 "A move is resolved by looking for its family with amount 1 (then repeated by the move's amount), then for the move exactly as written, then for its inverse (then inverted); at each step directly defined moves win over derived ones. Resolution distinguishes prefixes and families, gives the same result however the definition was written down, and a move that matches at no step is refused with an error.",
 ["inputs", "configurations"], "every puzzle definition and every move",
 "the tests only look up moves whose family is defined with amount 1; exact and inverse matches (such as a puzzle that defines only y2 or R') are never tried",
 [P+"lookup_move.rs", P+"kpuzzle.rs"], [("lookup_move", P+"lookup_move.rs:lookup_move")],
 observe=["KPuzzle::transformation_from_move", "KPattern::apply_move"])

prop("C14", "A definition is accepted exactly when all its derived moves can be evaluated",
 "Creating a puzzle succeeds exactly when every derived move can be evaluated: it does not depend on itself through any chain of derived moves, wherever in an alg the reference occurs, and uses only moves that resolve. On an accepted puzzle every move and derived move evaluates without endless recursion, and a derived move has the effect of its defining alg. The verdict does not depend on the order in which moves are listed.",
 ["configurations", "inputs"], "every set of derived move definitions",
 "one test has one two-step cycle; cycles through commutators, conjugates, nested groupings, inverses, non-unit amounts, long chains and diamonds are not tried, and the visiting order depends on hash randomization",
 [P+"derived_moves_validator.rs", P+"kpuzzle.rs", P+"lookup_move.rs"], [("depth-first cycle check", P+"derived_moves_validator.rs:visit"), ("recursive evaluation", P+"kpuzzle.rs:transformation_from_move")],
 state=[("derived_move_visit_statuses", "in progress / done marks per move", P+"derived_moves_validator.rs")],
 observe=["KPuzzle::try_new, try_from_json", "KPuzzle::transformation_from_move"])

prop("C15", "Orientations marked as partly ignored behave modulo their orientation modulus",
 "A piece whose orientation modulus m divides the orbit's number of orientations keeps its orientation modulo m: a transformation adds its orientation change modulo m, and the modulus travels with the piece. Modulus 0 (or absent, or equal to the number of orientations) means all orientations are distinguished. This holds for every number of orientations a definition may use, up to the documented maximum of 107, and larger numbers are refused with an error.",
 ["inputs", "configurations"], "every number of orientations 1..107, every modulus, orientation and orientation change",
 "one test has two pieces with moduli 3 and 4 of 12; the packed encoding is a different table for each number of orientations",
 [P+"orientation_packer.rs", P+"kpattern.rs", P+"kpuzzle.rs"], [("OrientationPacker tables", P+"orientation_packer.rs:OrientationPacker::new"), ("limit on num_orientations", P+"kpuzzle.rs:MAX_NUM_ORIENTATIONS_INCLUSIVE")],
 state=[("packed orientation byte", "index of an (orientation, modulus) pair", P+"orientation_packer.rs")],
 observe=["KPattern::try_from_data, apply_transformation, to_data, get_orientation_with_mod"])

prop("C16", "Patterns, transformations and definitions survive conversion to and from data",
 "Building a pattern or transformation from data or JSON and reading it back gives the same data for every orbit (an absent orientation modulus reads back as 0 for every piece, and one equal to the number of orientations as 0). Building again from what was read back gives an equal value, and a puzzle definition written as JSON and loaded again gives a puzzle on which every move has the same effect.",
 ["inputs", "configurations"], "every puzzle and all well-formed pattern, transformation and definition data",
 "no test reads data back; a few patterns and definitions are only loaded",
 [K+"definition.rs", P+"kpattern.rs", P+"ktransformation.rs", P+"kpuzzle.rs"], [("try_from_data, to_data, try_from_json", P+"kpattern.rs; "+P+"ktransformation.rs; "+P+"kpuzzle.rs"), ("serde derives", K+"definition.rs")],
 observe=["try_from_data, try_from_json, to_data", "serde_json on KPuzzleDefinition"])

prop("C17", "Malformed puzzle data is refused with an error, never accepted and never a crash",
 "Pattern data, transformation data and definitions' move tables, given as data or JSON, with a missing orbit, a list that is not exactly one entry per piece, a permutation that is not a permutation, an orientation or orientation change out of range, or a modulus that does not divide the number of orientations, are refused with an error when the pattern, transformation or puzzle is created; so is a definition with an unsupported number of orientations. It never panics, is never silently accepted, and never yields an object whose later use reads or writes outside its own data.",
 ["inputs", "fault_sequences"], "every malformed data value or JSON text",
 "no test passes malformed data other than one recursive definition",
 [P+"kpattern.rs", P+"ktransformation.rs", P+"kpuzzle.rs", P+"orientation_packer.rs"], [("validation in try_from_data and try_new", P+"kpattern.rs:try_from_data; "+P+"ktransformation.rs:try_from_data; "+P+"kpuzzle.rs:try_new")],
 observe=["KPattern::try_from_data, try_from_json", "KTransformation::try_from_data, try_from_json", "KPuzzle::try_new, try_from_json"])

prop("C18", "Equality, hashing and cloning follow the value",
 "Two patterns (or transformations) of a puzzle are equal exactly when their data are equal in every orbit, position, orientation and modulus; equal patterns hash equally, whichever way they were computed. A clone equals its original, and no later operation on one changes the other.",
 ["histories", "inputs"], "every pair of values and every history of operations on values and their clones",
 "the tests compare a few values of one puzzle and never hash a pattern or change a clone",
 [P+"packed_orbit_data.rs", P+"kpattern.rs", P+"ktransformation.rs"], [("PartialEq, Hash, Clone, Drop on raw bytes", P+"packed_orbit_data.rs")],
 state=[("bytes", "owned allocation per value", P+"packed_orbit_data.rs")],
 observe=["==, Hash, clone on KPattern and KTransformation, also as hash-map keys"])

prop("C19", "A buffer always shows its initial value with all applied transformations",
 "After any history of applications, a pattern buffer's (or transformation buffer's) current value equals the initial value with exactly those transformations applied in order. The buffer never changes the value it was created from or the transformations applied to it, and two buffers are equal exactly when their current values are, whatever their histories.",
 ["histories"], "every initial value and every sequence of applications, reads and comparisons",
 "no test uses a buffer",
 [P+"kpattern.rs", P+"ktransformation.rs"], [("double buffering with a current flag", P+"kpattern.rs:KPatternBuffer; "+P+"ktransformation.rs:KTransformationBuffer")],
 state=[("a, b, a_is_current", "the two halves and which one is current", P+"kpattern.rs:KPatternBuffer")],
 observe=["KPatternBuffer and KTransformationBuffer: From, apply_transformation, current, =="])

prop("C20", "The built-in 3x3x3 and 2x2x2 puzzles behave like the physical cubes",
 "Every move of the built-in 3x3x3 and 2x2x2 puzzles (face turns, slices, wide moves in both spellings, inner-layer moves, rotations in both spellings) has exactly the effect of turning those layers of a physical cube in the standard direction, on edges, corners and centers with their orientations. So every alg of these moves gives the pattern the physical cube shows, and no alg reaches a pattern a physical cube cannot show (orientation sums and permutation parities). The default pattern is the solved cube.",
 ["inputs", "histories"], "every move the two puzzles define, with any amount, and every alg of them",
 "the tests use few of the 3x3x3's 36 and the 2x2x2's 15 moves, and compare algs with each other rather than with a cube",
 ["cubing_core/src/puzzles/3x3x3.kpuzzle.json", "cubing_core/src/puzzles/2x2x2.kpuzzle.json", "cubing_core/src/puzzles/lib.rs"], [("move tables and derived moves", "cubing_core/src/puzzles/*.json")],
 observe=["cube3x3x3_kpuzzle, cube2x2x2_kpuzzle", "KPuzzle::transformation_from_move", "KPattern::apply_alg"])

prop("C21", "Sharing puzzles, patterns and algs between threads never changes a result",
 "Any number of threads may share puzzles, patterns, transformations and algs, including the first use of the built-in puzzles, and move or drop them on other threads. Every operation gives the result it would give alone, under every schedule.",
 ["schedules", "histories"], "every interleaving of operations on shared values",
 "three tests each hand one value to one thread; no two threads ever use a value at the same time",
 [P+"packed_orbit_data.rs", P+"kpuzzle.rs", A+"special_notation.rs", K+"json_macros.rs"], [("unsafe Send/Sync, shared reference counts", P+"packed_orbit_data.rs"), ("one-time initialization of built-in puzzles and Square-1 families", K+"json_macros.rs; "+A+"special_notation.rs")],
 observe=["all operations, from several threads"])

prop("C22", "Bundled JSON values equal run-time loading and are created once",
 "A puzzle, pattern or transformation bundled from a JSON file behaves exactly like the one obtained by loading the same JSON at run time. Every access, from any thread, returns the very same object.",
 ["histories", "schedules"], "every bundled file, every sequence of accesses from any threads",
 "the documentation tests only check that one access compiles and runs",
 [K+"json_macros.rs", "cubing_core/src/puzzles/lib.rs"], [("macros with a one-time cell", K+"json_macros.rs")],
 observe=["kpuzzle_from_json_file!, kpattern_from_json_file!, ktransformation_from_json_file!", "cube3x3x3_kpuzzle, cube2x2x2_kpuzzle"])

prop("C23", "Every error can be displayed and its chain of causes ends",
 "Every error the library returns displays a non-empty description without failing. Following its chain of underlying causes always ends. An error about transformation data is reported as a transformation-data error, about pattern data as a pattern-data error, about notation as a notation error, and about an undefined move as a move error.",
 ["inputs"], "every failing operation",
 "the tests look at the text of one error and at no cause chain",
 [P+"kpuzzle.rs", P+"errors.rs", A+"parse.rs"], [("error enums and Error::source", P+"kpuzzle.rs:InvalidAlgError, ConversionError")],
 observe=["Display, std::error::Error::source and the variants of InvalidAlgError, ConversionError"])

prop("C24", "Reading and writing one slot touches exactly that slot",
 "The puzzle lists exactly the orbits of its definition, in order, with their sizes, and finds each by name. Reading a piece, orientation, permutation or orientation-change slot returns what was last stored there; writing one slot changes that slot and no other slot of any orbit, on puzzles with any number and sizes of orbits; an index or value out of range is refused and changes nothing (a pattern's piece labels may be any byte).",
 ["histories", "configurations"], "every puzzle layout, every slot, every history of writes and reads",
 "the tests read one permutation slot and never write one",
 [P+"packed_orbit_data.rs", P+"kpuzzle.rs", P+"kpattern.rs", P+"ktransformation.rs"], [("byte offsets per orbit", P+"kpuzzle.rs:try_new"), ("get_/set_ accessors", P+"kpattern.rs; "+P+"ktransformation.rs")],
 state=[("offsets", "where each orbit's pieces and orientations start", P+"kpuzzle.rs:KPuzzleOrbitInfo")],
 observe=["orbit_info_iter, lookup_orbit", "get_piece, set_piece, get_orientation_with_mod, set_orientation_with_mod, get_/set_permutation_idx, get_/set_orientation_delta"])

prop("C25", "Every solution the F2L example prints solves the scramble",
 "For every scramble that leaves the cross solved, each full solution the f2lfast example prints brings the scrambled 3x3x3 to the solved pattern, in its long form, and the printed link carries exactly that scramble and solution. A scramble that does not leave the cross solved is refused, and a slot is reported as initially solved exactly when its edge and corner are both solved. The short form of a solution names exactly the moves of its long form, and when some sequence of slot triggers within the depth limit solves the scramble, a solution is printed.",
 ["inputs"], "every scramble and every set of search options",
 "the example is only compiled by the tests, never run",
 ["cubing/examples/f2lfast/search.rs", "cubing/examples/f2lfast/patterns.rs", "cubing/examples/f2lfast/triggers.rs", "cubing/examples/f2lfast/main.rs"], [("solved check before printing", "cubing/examples/f2lfast/search.rs:search_recursive"), ("slot masks", "cubing/examples/f2lfast/patterns.rs")],
 observe=["standard output and exit status of the example"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props))
