HOOKS = {(m, h): 1 for m, hs in [("decode", "block mask field"), ("detect", "line corner finder"), ("geometry", "geo persp"), ("grid", "timing leftmost fit jiggle setup locate search measure rotate read"), ("prepare", "image fill region group")] for h in hs.split()}
TRUST = ["Verus, its encoding and Z3", "rustc compiles the extracted text and the original source alike", "tools/vx.py extraction and its listed rewrites", "usize is 64 bits wide"]
GRID = "implementations of BitGrid: size() and bit() are functions of the grid (assumed contract)"
G2P = "the g2p crate: +, *, /, ==, pow of GF256 and GF16 compute the field operations (assumed contracts; compared with the real crate on every pair of elements by the native stage)"
IO = "std::io::Write::write_all on the writer: appends all bytes, or part of them and returns an error (assumed contract)"
UTF8 = "String::from_utf8: Ok exactly for valid UTF-8 and then the same bytes (assumed contract; executed against std by the native stage)"
IMG = "ImageBuffer implementations: width, height fixed; get_pixel returns what was set, other pixels unchanged (assumed contract; proved for BasicImageBuffer in C09, and for the image types of the image crate in C10 over an assumed contract of that crate)"
PROPS = {
 "C01": {"templates": {"payload": None}, "trust": [IO]},
 "C02": {"templates": {"fmt": None}, "trust": [GRID, G2P]},
 "C03": {"templates": {"rs": {"except": ("codestream_ecc", "block_table", "structure", "positions", "keep", "block_is", "accept", "ecc_row", "ecc_row_", "mul_bound")}}, "trust": [G2P]},
 "C06": {"templates": {"rs": {"only": ("codestream_ecc", "block_table", "structure", "positions", "keep", "block_is", "accept", "ecc_row", "ecc_row_", "mul_bound")}}, "trust": [G2P]},
 "C04": {"templates": {"place": {"except": ("mask_bit",)}}, "trust": [GRID]},
 "C05": {"templates": {"place": {"only": ("mask_bit", "read_bit")}}, "trust": [GRID]},
 "C07": {"templates": {"payload": None, "place": None, "rs": None, "fmt": None, "dec": None}, "safety_only": True, "trust": [GRID, G2P, IO]},
 "C08": {"templates": {"dec": {"only": ("MirroredGrid::size", "MirroredGrid::bit", "get_raw", "decode", "decode/_decode", "n", "at")}}, "trust": [GRID, G2P, IO]},
 "C18": {"templates": {"dec": {"except": ("MirroredGrid::size", "MirroredGrid::bit", "get_raw", "decode/_decode")}, "payload": {"soft": True}}, "trust": [GRID, IO, UTF8]},
}
_X = ("line_intersect", "isect_on", "isect_only", "isect_code", "code_nx", "dist", "perm", "sub", "on_line_is", "mul_abs", "div_small")
PROPS["C14"] = {"templates": {"corner": None}, "trust": ["the derived Default of Point is (0, 0)"]}
PROPS["C15"] = {"templates": {"geo": {"except": _X}}, "trust": [IMG]}
PROPS["C16"] = {"templates": {"geo": {"only": _X}}, "trust": []}
LRU = "the lru crate: a map with least-recently-used order (assumed contracts of new, cap, len, get, put, pop_lru; the native stage runs the real crate through eviction)"
PROPS["C11"] = {"templates": {"fill": None}, "trust": [IMG]}
PROPS["C12"] = {"templates": {"fill": None, "region": None}, "trust": [IMG, LRU, "the closure |_| () passed as AreaFiller does nothing"]}
STDX = "usize::div_ceil, Vec::into_boxed_slice and <[T]>::fill do what their documentation says (assumed contracts)"
FN = "pixel and module functions passed in are relations between arguments and results (Verus's model of FnMut: a call leaves the captured state alone); that each is called once per pixel is only checked by the native stage"
PROPS["C09"] = {"templates": {"build": None}, "trust": [STDX, FN, LRU]}
PROPS["C10"] = {"templates": {"prep": None}, "trust": [STDX, FN, IMG, LRU]}
PROPS["C13"] = {"templates": {"line": None}, "trust": ["<[T]>::rotate_left does what its documentation says (assumed contract)"]}
PROPS["C17"] = {"templates": {"persp": None}, "trust": ["f64 arithmetic, comparison, round and casts are exact (real numbers): machine arithmetic treated as mathematical; the native stage executes the f64 code within 1e-5"]}
PROPS["C21"] = {"templates": {"finder": None}, "trust": [IMG, LRU, "Perspective::create and Perspective::map are functions of their arguments (assumed contracts, external_body; their values are the subject of C17)", "widths and heights up to 16384 (the sums of C14 fit into 32 bits)"]}
EXACT = "f64 arithmetic is exact (real numbers): machine arithmetic treated as mathematical; the native stage executes the f64 code itself"
PF = "Perspective::create, map and unmap are functions of their arguments (assumed contracts, external_body; their values are the subject of C17)"
PROPS["C22"] = {"templates": {"loc": None}, "trust": [IMG, LRU, PF, EXACT, "i32::unsigned_abs and <[T]>::rotate_left do what their documentation says (assumed contracts)", "images up to 16384 x 16384, corners within 8192 of the origin, the mapped timing and alignment points in that range as well (preconditions not discharged at the caller: they depend on the value of f64 computations)"]}
PROPS["C23"] = {"templates": {"fit": None}, "trust": [IMG, PF, EXACT]}
SORT = "<[T]>::sort_unstable_by with a total order: the same elements in that order; <[T]>::contains (assumed contracts)"
FITS = "images up to 16384 x 16384 pixels, finders and the points mapped by the perspectives of any three of them within the ranges of C22 (precondition `tame`, not discharged: it depends on the value of f64 computations, see C19)"
COPY = "Clone of an ImageBuffer gives an equal one; the iterator of the lru crate gives every entry once, last used first (assumed contracts)"
PROPS["C24"] = {"templates": {"group": None}, "trust": [IMG, LRU, PF, EXACT, SORT, COPY, FITS]}
PROPS["C25"] = {"templates": {"grids": None}, "trust": [IMG, LRU, PF, EXACT, COPY, FITS]}
NOTE = {
 "C24": "Proof: find_possible_neighbors, find_and_rank_possible_neighbors, PreparedImage::clone and find_groupings discharged by Verus over the contract of SkewedGridLocation::from_group proved for C22, for every list of finders and every image.",
 "C25": "Proof: detect_grids and into_grid_image discharged by Verus over the contracts of capstones_from_image (C21), find_groupings (C24) and from_group (C22): which finders, which groups, which locations in which state of the image, and the bounds of each grid.",
 "C22": "Proof: SkewedGridLocation::from_group, rotate_capstone, measure_timing_pattern, timing_scan (contract), find_alignment_pattern, LeftMostFinder (contract), RefGridImage::size and bit discharged by Verus over the contracts of region queries, claims, line scans and refinement.",
 "C23": "Proof over the real numbers: fitness_all, fitness_cell, fitness_ring, fitness_apat, fitness_capstone, version_from_grid_size, jiggle_perspective and setup_perspective discharged by Verus against the score of the ISO function patterns.",
 "C21": "Proof: capstones_from_image, is_capstone and create_capstone discharged by Verus over the contracts proved for the line scanner, region numbering, region claiming and corner search, for every image up to 16384 x 16384.",
 "C13": "Proof: LineScanner::new, advance and test_for_capstone discharged by Verus with a history invariant: after any sequence of pixels the state is the run structure of that line, and a report is made exactly at the ends of 1:1:3:1:1 runs.",
 "C17": "Proof over the real numbers: Perspective::create, map and unmap discharged by Verus with f64 replaced by exact reals (nine polynomial identities proved as lemmas); rounding errors of f64 are outside the proof and only sampled by the native stage.",
 "C09": "Proof: SimpleGrid::from_func, size, bit (with an invariant that relates the packed cells to the function), BasicImageBuffer, without_preparation, prepare_from_bitmap and get_pixel_at discharged by Verus for every size and function.",
 "C10": "Proof: prepare, prepare_from_greyscale, BasicImageBuffer and the adapter for the image crate discharged by Verus against the recurrences of the two moving averages, for every image up to 2^31 wide, including the absence of overflow.",
 "C11": "Proof: flood_fill and AreaCounter discharged by Verus for every image, start and colours: exactly the 4-connected region is recoloured, the runs partition it, it terminates.",
 "C12": "Proof: get_region and repaint_and_apply discharged by Verus over the contract of flood_fill with an invariant on image and cache that every query and claim preserves; the lru crate is an assumed contract.",
 "C14": "Proof: FirstCornerFinder, AllCornerFinder (new, update, best) and LeftMostFinder::update discharged by Verus with a history invariant: after any sequence of runs the stored point is the earliest of greatest score.",
 "C15": "Proof: BresenhamScan::new and next discharged by Verus against the closed form of the line, the lemma line_scan gives the stated guarantees for it; timing_scan and get_pixel_at_point discharged over it.",
 "C16": "Proof: line_intersect discharged by Verus against the exact rational intersection; lemmas isect_on and isect_only show that this is the one common point of the two lines.",
 "C07": "Proof: the absence of panics, overflow, out of range indexing and reads outside the grid, and termination, are obligations of every function below decode and get_raw, discharged by Verus for all grids.",
 "C08": "Proof: decode, its inner _decode, get_raw and MirroredGrid discharged by Verus against a specification of the two orientations; format, placement, correction and payload enter by the contracts proved for them.",
 "C18": "Proof: Grid::decode, Grid::decode_to, decode and the error conversion discharged by Verus over the payload contract (IoError exactly if the writer failed; what was accepted is a prefix); String::from_utf8 is an assumed contract.",

 "C02": "Proof: format_syndromes, berlekamp_massey, poly_eval, correct_format, read_format and Version::from_size discharged by Verus for all words and grids; the BCH words are specified by the ISO polynomial division, the field operators of g2p are assumed contracts.",
 "C03": "Proof: block_syndromes, berlekamp_massey, poly_add, eloc_poly, poly_eval, correct_block discharged by Verus for all blocks (field axioms, Vandermonde, Forney proved as lemmas); the field operators of g2p are assumed contracts.",
 "C06": "Proof: codestream_ecc and the block structure of the version table discharged by Verus against the ISO interleaving for all versions, levels and contents.",
 "C01": "Proof: every obligation of the payload decoder (decode_payload, the five segment decoders, their tuple helpers, the bit reader) discharged by Verus against an ISO parser written as a specification; the writer is an assumed contract.",
 "C04": "Proof: read_data, reserved_cell, read_bit, RawData::push and the alignment coordinates of the version table discharged by Verus against the ISO placement order, for all versions and contents.",
 "C05": "Proof: mask_bit and read_bit discharged by Verus against the ISO mask conditions for all masks and coordinates.",
}
NA = {
 "C19": "the panics left depend on f64 computations (perspective mapping of arbitrary float coefficients, casts of out of range floats); Verus has no model of IEEE arithmetic that can bound them",
 "C20": "needs the accuracy of the f64 perspective estimation and of the hill climbing in jiggle_perspective; no contract within reach of the verifier expresses or decides it",
}
for _p in "C02 C03 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18".split():
    if _p not in PROPS: NA[_p] = "contracts under construction"
