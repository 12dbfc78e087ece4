"""What each check verifies: the Verus modules it extracts, the functions whose contracts carry the
property (its roots), and whether the differential replay has tests for it."""

# modules each extracted module is emitted with
_RAZ0 = ["stack", "archive_stack", "level_tree", "tree_cursor", "raz_meta", "raz"]
DEPS = {
    "stack": [], "archive_stack": ["stack"], "level_tree": [], "tree_cursor": ["level_tree"],
    "trees": ["level_tree"], "iodyn": ["level_tree"],
    "memo": [], "skiplist": [], "trie": [], "interface": _RAZ0, "accum_lists": ["interface"], "raz_meta": [], "raz": ["stack", "archive_stack", "level_tree", "tree_cursor", "raz_meta"],
    "eval_prims": _RAZ0, "eval_iraz": ["eval_prims"], "eval_raz_name_index": ["eval_prims"], "eval_vec": ["eval_prims"],
    "actions": ["eval_prims"], "test_seq": ["actions"], "test_build": ["actions", "test_seq"], "eval_iastack": ["eval_prims"], "types": ["eval_prims"], "examples": ["eval_prims"],
}
ORDER = ["stack", "archive_stack", "level_tree", "trees", "iodyn", "tree_cursor", "raz_meta", "raz", "memo", "skiplist", "trie", "interface", "accum_lists", "eval_prims", "eval_iraz", "eval_raz_name_index", "eval_vec", "actions", "test_seq", "test_build", "eval_iastack", "types", "examples"]
_RAZ = ["stack", "archive_stack", "level_tree", "tree_cursor", "raz_meta", "raz"]
_ASM = " Assumes the contracts of specs/prelude.rs for adapton and std."

# property -> (modules whose functions are under contract for it, root keys; "*" is every function of the module)
PROPS = {
    "C01": {"note": "Proved for all inputs and histories: each zipper edit against the pair of sequences (left, right), from any well-formed zipper, including absence of panics." + _ASM,
            "modules": _RAZ, "roots": ["raz:Raz::new", "raz:Raz::push_left", "raz:Raz::push_right", "raz:Raz::pop_left", "raz:Raz::pop_right",
                                       "raz:Raz::peek_left", "raz:Raz::peek_right", "raz:Raz::archive_left", "raz:Raz::archive_right"]},
    "C02": {"note": "Proved for all trees and positions: focus ends on the boundary the metadata navigates to, and lemmas over that contract give the exact split for element counts and position markers." + _ASM,
            "modules": _RAZ, "roots": ["raz:RazTree::focus", "raz:RazTree::focus_left", "raz_meta:Count as RazMeta::*", "raz_meta:() as RazMeta::*", "raz_meta:Position as *", "raz_meta:usize as *"]},
    "C03": {"note": "Proved for all zipper states: unfocus yields left ++ right, the archive operations change neither." + _ASM,
            "modules": _RAZ, "roots": ["raz:Raz::unfocus", "raz:Raz::archive_left", "raz:Raz::archive_right"]},
    "C04": {"note": "Proved for all inputs: the metadata stored in every branch and at the top equals the from-scratch metadata of the elements below. Count::from_meta is proved under the assumption that the total length fits in usize." + _ASM,
            "modules": _RAZ, "roots": ["raz:*", "raz_meta:*"]},
    "C05": {"note": "Proved for all trees and names: focus on a name stops exactly at the branch carrying it and refuses names carried by no branch of a multi-leaf tree." + _ASM,
            "modules": _RAZ, "roots": ["raz:RazTree::focus", "raz_meta:Names as RazMeta::*"]},
    "C06": {"note": "Proved for all inputs: from_vec and join against concatenation, with their refusal conditions." + _ASM,
            "modules": _RAZ, "roots": ["raz:RazTree::from_vec", "raz:RazTree::join", "raz:RazTree::empty", "raz:RazTree::is_empty", "raz:Raz::new"]},
    "C07": {"note": "Proved for all inputs: Tree::new, every cursor movement, Cursor::join and Raz::unfocus preserve the level discipline, and good_levels returns true exactly for trees that have it." + _ASM, "modules": _RAZ,
            "roots": ["raz:Raz::unfocus", "raz:RazTree::focus", "raz:RazTree as MemoFrom*", "level_tree:good_levels", "level_tree:Tree::new", "tree_cursor:Cursor::join", "tree_cursor:Cursor::up",
                      "tree_cursor:Cursor::split"]},
    "C08": {"note": "Proved for all trees and all total user functions: each fold against the in-order fold of the elements (bottom-up ones for every associative function), the level/name callbacks against the tree's branches." + _ASM,
            "modules": _RAZ, "roots": ["raz:RazTree::fold*"]},
    "C09": {"note": "Proved for all trees and all total user functions: map against the element-wise image, with the same levels, names and leaf boundaries and exact metadata. That the function is called once per position is not expressible in the contract (its calls are not observable to the verifier)." + _ASM,
            "modules": _RAZ, "roots": ["raz:RazTree::map"]},
    "C10": {"note": "Proved for all inputs on the extracted functions of level_tree.rs: construction, accessors, the folds and the map against recursive specifications." + _ASM, "modules": ["level_tree"], "roots": ["level_tree:*"]},
    "C11": {"note": "Proved for all inputs: each cursor movement against the in-order content and structure of the whole tree under the cursor." + _ASM, "modules": ["level_tree", "tree_cursor"], "roots": ["tree_cursor:Cursor::*"]},
    "C12": {"note": "Proved for all inputs: split and join against the in-order content of both cursors, including absence of panics." + _ASM, "modules": ["level_tree", "tree_cursor"],
            "roots": ["tree_cursor:Cursor::split", "tree_cursor:Cursor::join", "tree_cursor:Cursor::at_root"]},
    "C13": {"note": "Proved for all inputs: into_iters, next and fold_out against the sequence of the following nodes." + _ASM, "modules": ["level_tree", "tree_cursor"], "roots": ["tree_cursor:IterR::*", "tree_cursor:Cursor::into_iters"]},
    "C14": {"note": "Proved for all inputs: every operation of stack.rs against a sequence view." + _ASM, "modules": ["stack"], "roots": ["stack:*"]},
    "C15": {"note": "Proved for all inputs: every operation of archive_stack.rs against its sections and archive data." + _ASM, "modules": ["stack", "archive_stack"], "roots": ["archive_stack:*"]},
    "C16": {"note": "Proved for all stacks whose archive levels are between 1 and u32::MAX (exclusive for a tail edit point): both conversions against the sequence of leaves and branches the sections and archive points call for, including absence of panics and canonical levels." + _ASM,
            "modules": _RAZ, "roots": ["raz:RazTree as MemoFrom*"]},
    "C17": {"note": "Proved for all histories, path lengths from 1 up (below 2^32) and hash functions: every operation of the skip list against the finite map its paths stand for, including absence of panics. Assumes that a value's hash is a function of the value, that equality of keys is that of their values, that adapton pairs and numbers names injectively, that names handed to emp and archive are new (for the freshness of cell names), and fewer than 2^64 updates." + _ASM,
            "modules": ["skiplist"], "roots": ["skiplist:*"]},
    "C18": {"note": "Proved for all histories: push and pop of each of the seven representations against one stack, and archive against the identity on its elements, over the verified contracts of Raz and AStack." + _ASM,
            "modules": _RAZ + ["interface", "accum_lists"], "roots": ["interface:*", "accum_lists:*"]},
    "C19": {"note": "Proved for all drawn numbers: gen_branch_level equals 1 + trailing zeros of the low 63 bits, inc_level is such a level of a number drawn from the thread's generator." + _ASM, "modules": ["level_tree", "iodyn"], "roots": ["level_tree:gen_branch_level", "iodyn:inc_level"]},
    "C20": {"note": "Proved for all maps, keys and hashes: lookup against the bindings of the trie, from_hashmap, empty, and union with an empty operand, including absence of panics. The union of two non-empty tries always panics (known finding); the contract of union excludes it and the replay accepts only that panic or a correct union. Assumes that a HashMap lists each of its bindings once." + _ASM,
            "modules": ["trie"], "roots": ["trie:Trie::find", "trie:Trie::empty", "trie:Trie::from_hashmap", "trie:Trie::split_map", "trie:Trie::union"]},
    "C22": {"note": "Proved for all inputs and histories: every list head, archive and tree node made without a name is stored in a nameless cell, every operation keeps that and invents no names, and the lemmas lemma_hfree and lemma_free conclude that data without names contains no cell anything could overwrite; everything else is immutable Rust values. Assumes that adapton overwrites only cells that have a name." + _ASM,
            "modules": _RAZ, "pinned": True, "roots": ["stack:*", "archive_stack:*", "level_tree:Tree::*", "tree_cursor:*", "raz:Raz::*", "raz:RazTree::*", "raz:RazTree as *"]},
    "C24": {"note": "Proved for all zipper states: unfocus yields the left nodes, the archived sections with one branch per archive point, the active sections as one leaf, and the right nodes (node by node: level, name, elements); every edit against the nodes, archived sections and active section of both sides; focus, join and from_vec against the nodes of the tree. That the name of a new branch is one fixed pairing of the archive point's name is proved; that pairing is injective is adapton's." + _ASM,
            "modules": _RAZ, "roots": ["raz:Raz::new", "raz:Raz::push_left", "raz:Raz::push_right", "raz:Raz::pop_left", "raz:Raz::pop_right", "raz:Raz::archive_left", "raz:Raz::archive_right", "raz:Raz::unfocus",
                                       "raz:RazTree::focus", "raz:RazTree::focus_left", "raz:RazTree::join", "raz:RazTree::from_vec"]},
    "C25": {"note": "Proved for all sizes, gauges, batches and harness states: construction and every edit against the drawn elements in order, node by node down to the archive points, their levels and names; every computation against the fold or map of the elements. Assumes that a generator is a function of its state (endless, same values for the same state), that the order of the elements is total and antisymmetric, and that counters do not exceed usize; the clock is not modelled (a timed part is verified as running once where it stands)." + _ASM,
            "modules": _RAZ + ["eval_prims", "eval_iraz", "eval_raz_name_index", "eval_vec"], "roots": ["eval_iraz:*", "eval_raz_name_index:*", "eval_vec:*"]},
    "C26": {"note": "Proved for all harnesses, parameters and numbers of steps: each action against the one operation it stands for, each test driver against the whole history of steps (what each one was given, what it left, and the times reported), over harness operations that are any relation at all; the sample data exactly. Clock, namespaces and floating point are not modelled: a timed part is verified as running once where it stands, the overall times are only counted, and a size is an uninterpreted function of multiplier and index; the replay checks these on runs." + _ASM,
            "modules": _RAZ + ["eval_prims", "actions", "test_seq", "test_build", "eval_iastack", "types", "examples"],
            "roots": ["actions:*", "test_seq:*", "test_build:*", "eval_iastack:*", "types:*", "examples:*"]},
    "C27": {"note": "Proved for all drawn numbers and all levels: NegBin's draw equals 1 + trailing zeros of the low 63 bits; the greatest, least, next and previous level of NegBin and usize against the order of their numbers, including absence of overflow." + _ASM,
            "modules": ["level_tree", "trees"], "roots": ["trees:*"]},
    "C28": {"note": "Proved for all values: the copies of trees and cursors written by hand equal their originals; the hash of a trie's leaf is a sum over its map's bindings, so a function of the map alone, and a leaf's equality and hash are those of that number; Names adds nothing to a hash, Elm's number only (repeatedly). The derived comparisons, hashes and copies are the compiler's and run only in the replay. Assumes that hashing is a function of the hasher's state and the value, and that a HashMap lists each of its bindings once." + _ASM,
            "modules": _RAZ + ["trie", "eval_prims", "types"], "roots": ["types:Elm as Hash*", "trie:TrieLeaf as *", "trie:Trie::hash_map", "trie:Trie::from_hashmap", "trie:my_hash", "raz_meta:Names as Hash*", "level_tree:Tree as Clone*", "tree_cursor:Cursor as Clone*"]},
    "C23": {"note": "Proved for every type and every conversion contract: the same-type conversion returns an equal value, the into-form satisfies exactly the from-form's contract." + _ASM,
            "modules": ["memo"], "roots": ["memo:*"]},
}

NOT_APPLICABLE = {
    "C21": "What a re-run under change propagation returns is decided by adapton's dependency graph engine (an external crate): contracts on this repository's functions can only state the from-scratch result of a call, which C08-C10, C13, C16 and C23 do; relating two runs across edits would need a contract for the engine's whole demand graph and its memo table, which would be assumed, not proved, so nothing of the property would be decided by an obligation on this code.",
}
