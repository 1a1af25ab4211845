import flow, ord as ordm, witness, fold, shape
ASSUMPTIONS = ["clang 18 lowers the sources faithfully; inlining and SROA preserve the meaning of the program",
  "user functors, allocators and element types behave as declared: they may throw unless noexcept, and do not touch the container re-entrantly",
  "the container instantiations listed in DESIGN.md stand for all (the code is generic in them)"]
FLOWX = ("Every entry point listed is flattened to one control-flow graph with exceptional edges and interpreted abstractly (object typestate: memory live/released, "
  "element constructed/destroyed, membership in each index, size delta, ownership by handles); the obligations of the property are checked at every normal and every exceptional exit. ")
CHECKS = {p: {"analyses": [flow.run], "explanation": FLOWX} for p in flow.SEL}
TS = "typestate / dataflow abstract interpretation of LLVM IR compiled from /repo's headers"
NOTE = {
 "C01": "all single-element insertion forms and transfer, per first-index kind and companion index sets; range insertion per element",
 "C02": "erase/extract/clear/remove/unique forms", "C03": "replace by copy and move", "C04": "modify and modify_key without rollback",
 "C05": "modify and modify_key with rollback", "C06": "memory/object obligations at every exit of every entry point",
 "C08": "allocator and size used for every release, allocator field propagation for the combinations of propagation traits",
 "C09": "value of every field of both containers after swap, move construction and move assignment", "C10": "value of every functor, parameter, size and allocator field after copying, source untouched, memory obligations of copying",
 "C07": "node handle operations and node insertion/extraction", "C11": "no exceptional exit from the listed operations, no throw inside noexcept code",
 "C12": "no store outside the frame and no non-const user call from const operations", "C14": "iterator lists of every index detached, transferred, exchanged or left alone at every exit of every operation compiled in safe mode",
  "C15": "every access to an iterator list under its owner's lock, release on every path, address-ordered double locking, no calls out while locked; exclusive operations (destruction, swap, clear of a container) are the caller's to serialise",
 "C21": "rearranging operations keep membership of every element",
 "C24": "no copy, move, assignment or destruction of an element that stays", "C25": "no handler swallows or replaces a user exception",
}
CHECKS["C15"]["explanation"] = ("Every creation, copy, assignment, destruction, transfer of safe iterators and every const operation returning one is flattened to one control-flow graph and interpreted with the set of locks held, "
  "the owner of every list cell reached and symbolic aliasing of the containers; every load and store of list cells must happen under the owner's lock and every pair of locks must be taken in address order.")
for p in flow.SEL: CHECKS[p].update(technique=TS, note="per-path, any number of elements, for the listed container instantiations: " + NOTE[p])
REL = "relational abstract interpretation (tree-interval domain with loop invariants) of product programs at LLVM IR level"
RELX = ("Each entry point is a product program: a library operation on an arbitrary container followed by its specification, compiled from /repo's headers and flattened to one control-flow graph. "
  "The analyser interprets it path-sensitively over symbolic nodes of an arbitrary search tree (in-order interval of the node reached, uninterpreted user comparison and key functors), computing loop invariants by fixpoint joins; "
  "every specification assertion must follow from the invariants on every path. ")
for p, n in {"C19": "composite keys of ten components, and of five against ten, with tuples and std::tuples of both lengths on either side: comparison objects, equality objects, hash functions, the operators and the std/boost specialisations, for any outcome of the component functors",
  "C16": "all lookup, counting and range functions of ordered indices, for any tree, any comparison object and any key; iterator increment/decrement taken as in-order successor/predecessor",
  "C28": "find, count, contains, equal_range (own and compatible keys), bucket interface, all insertion forms, replace and modify of unique and non-unique hashed indices for any bucket content, hash and equality; the in-place decision of unique indices",
  "C17": "every insertion form, replace and modify with and without rollback on an arbitrary tree: position chosen with respect to both neighbours, refusals, hints, in-place decisions; link() taken as inserting next to the given position"}.items():
    CHECKS[p] = {"analyses": [ordm.run], "explanation": RELX, "technique": REL, "note": n}
AFF = "affine loop analysis with inferred invariants (Fourier-Motzkin) of LLVM IR"
CHECKS["C20"] = {"analyses": [shape.run, ordm.run, fold.run], "technique": AFF + "; " + REL + "; product functions decided by IR simplification",
  "explanation": "unchecked_rehash and reserve_for_insert are compiled from /repo's headers and interpreted over a table of any size and content, every hash call with a throwing edge: loops are summarised by inferred affine invariants over the saved hash and node arrays; "
  "on normal exit every group is in the new table under its own hash, the tables are exchanged and max_load recomputed, on exceptional exit every group taken out is back under its own hash in the old table, in its old bucket run. " + RELX +
  "The bucket given to link must be the one of the element's hash in the table current at that moment. For every table size, position() reduces to the remainder by that size.",
  "note": "rehash and growth of unique and non-unique hashed indices for any size, content and throw point; insertion, replace and modify link with a position computed in the current table; floating-point choice of the bucket count not covered"}
CHECKS["C21"]["analyses"] = [flow.run, shape.run]
CHECKS["C21"]["technique"] += "; " + AFF
CHECKS["C21"]["explanation"] += "The merge sort of sequenced indices is interpreted over any number of elements and lists known to be empty, non-empty or unknown: every temporary list must be empty at every normal and exceptional exit and none may be reset while it may hold elements. "
CHECKS["C10"]["analyses"] = [flow.run, shape.run]
CHECKS["C10"]["technique"] += "; " + AFF
CHECKS["C10"]["explanation"] += ("copy_ and the constructors of every index kind are also interpreted over originals of any number and shape (uninterpreted links, any order of the copy map): every link, colour, count, bucket and slot written must be the copy of the original's, "
  "and for a symbolic element every field must have been written on every path. ")
CHECKS["C10"]["note"] = "value of every functor, parameter, size and allocator field after copying, source untouched, memory obligations of copying, the complete link structure of the copied index for any content"
CHECKS["C23"] = {"analyses": [shape.run], "technique": "event-grammar analysis of LLVM IR (archive operations as events, loops closed by inferred affine invariants)",
  "explanation": "save and load of the container, the index saver and loader, every index in two containers holding one index of every kind, every iterator kind with and without safe mode, archive_constructed and the pointers of forged archives are compiled from /repo's headers against opaque archives whose every operation may throw; "
  "the interpreter follows all paths for any number of elements and any archive content and checks each archive operation (name, object, order, version) against the grammar of the archive and the state of the container. ",
  "note": "the same grammar for saving and loading at the current version, older versions on loading, positions looked up among the loaded elements before use, failing insertions rejected, temporaries and auxiliary memory released on every exit; the longest ordered subsequence itself and the rearranging of random access indices not covered"}
CHECKS["C29"] = {"analyses": [fold.run, witness.extractors], "technique": "equivalence of product functions by semantics-preserving IR simplification, plus compile-time witnesses",
  "explanation": "Each product function compares what a predefined extractor designates for one form of argument with the specified object; it is compiled from /repo's headers to LLVM IR and simplified, and must reduce to the constant true with no remaining instruction (so no copy and no store). Const-ness of the access is decided by compile-time witnesses. ",
  "note": "member, member_offset, all member function and global function extractors, identity, composite_key and key<>, on objects, derived objects, reference wrappers and chains of up to three raw and smart pointers"}
CHECKS["C22"] = {"analyses": [witness.run], "technique": "compile-time witnesses: type-level obligations and must-not-compile programs",
  "explanation": "Every obligation is decided by the compiler from /repo's headers: static assertions over the types and noexcept-ness of the whole public surface, and ill-formed programs that must be rejected, each paired with a well-formed twin that must be accepted. Nothing is run. ",
  "note": "all index kinds alone and in one eight-index container, with and without safe mode"}
CHECKS["C13"] = {"analyses": [ordm.run], "technique": "path-sensitive symbolic effect analysis of LLVM IR compiled from /repo's headers in safe mode",
  "explanation": "Each entry point assumes that exactly one documented precondition of one operation is violated (or none) and runs the operation; on every path of the flattened control-flow graph the documented code must be reported before the first effect "
  "(store outside the frame, user call, allocation, link change, use of the position of an invalid iterator, normal return), and nothing may be reported before the first effect when every precondition holds. ",
  "note": "every member taking iterators of every index kind, iterator operations and projection; whole-range reachability predicates are decided separately"}
SHP = "shape analysis (symbolic heaps with tree and path segments) of LLVM IR"
SHPX = ("Each tree primitive is compiled from /repo's headers to LLVM IR and interpreted over symbolic heaps: an arbitrary red-black tree is represented by the node operated on, its subtrees and the path above it, "
  "with the black heights, in-order content and sizes of each part; parts are unfolded into all their possible shapes when the code looks at them and folded back at loop heads until the set of loop heaps is closed. "
  "Every final heap must be a red-black tree with the expected in-order sequence, exact header links and, for ranked indices, exact subtree counts. ")
CHECKS["C27"] = {"analyses": [shape.run], "technique": SHP, "explanation": SHPX,
  "note": "link on either side, extraction, restore, increment and decrement at every position of every red-black tree; compressed and uncompressed nodes, with and without subtree counts"}
CHECKS["C18"] = {"analyses": [ordm.run, shape.run], "technique": REL + "; " + SHP, "explanation": RELX + SHPX,
  "note": "rank of every lookup, bound and range function against the number of preceding elements, for any tree; ranked_index_nth/rank and count maintenance of link, extract and restore on every red-black tree"}
CHECKS["C26"] = {"analyses": [shape.run], "technique": SHP,
  "explanation": "Each link primitive is compiled from /repo's headers to LLVM IR and interpreted over symbolic heaps: every neighbourhood of the nodes it is given (own, adjacent and next-but-one groups, list and bucket borders, empty buckets) with opaque, unreadable frontiers beyond it. "
  "As nothing beyond a frontier is read or written, the windows stand for lists of every size; after each path every link field of the window must be the one of the expected list, and the result the expected element. Loops over whole arrays and rings are interpreted with contents given by affine segments over symbolic bounds and closed by affine acceleration whose invariants are re-checked. ",
  "note": "hashed unique and non-unique link, unlink, undo of an unlink, walk and group primitives; sequenced link, unlink, relink, range relink, swap and walk. sequenced reverse and the pointer-array operations of random access indices for every length (affine loop analysis). Not covered: range relocation in random access arrays (gcd cycles), in-place test of non-unique hashed indices"}
NA = {
 "C30": "running-time bounds quantify over run lengths and structure depths; no sound cost analysis for pointer-based C++ containers is available here",
 "C31": "relates the full element order of two containers across a byte archive; needs a relational heap/sequence argument over unbounded structures (the symmetry of what is written and read is decided under C23)",
}
NOTES = "Static analysis only. engine/ holds the abstract interpreter (miflow, built on LLVM 18); drivers/ are units that instantiate /repo's headers with opaque user types and are compiled to IR, never run; checks/ the rules and the runner."
