#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the list is easy to review and edit).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["include/boost/"+f for f in files],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=list(observe),hook_needed=None)))
D="multi_index/detail/"
IDX=["multi_index_container.hpp",D+"ord_index_impl.hpp","multi_index/hashed_index.hpp","multi_index/sequenced_index.hpp","multi_index/random_access_index.hpp","multi_index/ranked_index.hpp"]

p("C01","Insertion is all-or-nothing across every index",
 "Inserting one element (by copy, move, in-place construction, from a node handle or by transfer from another container, hinted or not) either adds the element to every index exactly once and adds one to the size, or, if some index bans it or anything throws (key comparison, hashing, equality, element construction, allocation), adds it to no index and leaves the size and every other element's membership as they were. The reported success flag and iterator agree with what happened: on success they denote the new element, otherwise the element that prevented the insertion (or the node that was not inserted stays with its previous owner). A source passed by rvalue is moved from only if the insertion succeeds.",
 ["inputs","fault_sequences","configurations"],"Every container built from the eight index kinds, every element and hint, and every point at which a user-supplied operation or the allocator can throw.",
 "The tests check exception safety at a couple of hand-picked throw points for one container; the guarantee is about every throw point on every path through every stack of indices.",
 IDX+[D+"index_base.hpp"],
 [("insertion chain: each layer checks, calls the next layer, links only if the bottom accepted","every index's insert_ in ordered_index_impl.hpp/hashed_index.hpp/sequenced_index.hpp/random_access_index.hpp/ranked via ord_index_impl"),
  ("container level commit: count incremented iff the bottom returned the new node; nested handlers destroy/deallocate","multi_index_container.hpp insert_/insert_ref_/insert_nh_/emplace_/transfer_"),
  ("allocation and construction at the bottom of the hierarchy","detail/index_base.hpp insert_")],
 [("node_count","number of elements","multi_index_container::node_count")],["insert/emplace/push_back/insert(node_type)/merge/splice"])

p("C02","Erasing or extracting takes an element out of every index exactly once",
 "Removing elements (erase by iterator, range or key, pop, clear, unique/remove, extraction into a node handle, destruction of the container) unlinks each removed element from every index exactly once, subtracts exactly the number of removed elements from the size, and leaves all other elements linked. A removed element is destroyed and its memory released exactly once, unless it was extracted, in which case it is handed over intact.",
 ["inputs","histories","configurations"],"Every index kind and interface through which removal can be requested, for any content and any removed position.",
 "Tests remove particular elements from particular containers; the guarantee concerns all positions and all combinations of indices, and a missed unlink or a double free may stay invisible for a long time.",
 IDX+[D+"index_base.hpp"],
 [("extraction chain: each layer unlinks and calls the next","extract_ of every index layer"),("container level: count decremented, value destroyed, node deallocated","multi_index_container.hpp erase_/extract_/delete_node_/clear_"),("delete_all_nodes_ / empty_initialize","multi_index_container.hpp, last layer and every index's clear_")],
 [("node_count","number of elements","multi_index_container::node_count")],["erase","extract","clear","pop_front","~multi_index_container"])

p("C03","Replacing an element has the strong guarantee in every index",
 "Replacing an element (by copy or move) either succeeds, with the element holding the new value and still present exactly once in every index, or it reports failure or throws and the element keeps its value and its place in every index. The new value is assigned only after every index has accepted it, and nothing is ever destroyed, allocated or counted differently by a replacement.",
 ["inputs","fault_sequences","configurations"],"Every index stack, every position and new value, and every throw point of comparison, hashing, equality and assignment.",
 "Tests exercise replace with one throwing comparator at most; a missing restore shows only when a specific index bans or throws after a specific other index has already unlinked.",
 IDX+[D+"index_base.hpp",D+"ord_index_node.hpp",D+"hash_index_node.hpp"],
 [("unlink, try the lower layers, relink on success, restore on ban or exception","ordered replace_ (ord_index_impl.hpp), hashed replace_ (hashed_index.hpp)"),("value assignment at the bottom","index_base.hpp replace_")],[],["replace"])

p("C04","A failed modification removes the element from every index, once",
 "After an in-place modification without rollback (of the element or of its key) the element is present exactly once in every index if every index accepts the new value; if some index bans it, or the modifier or any comparison, hash or equality throws, the element is removed from all indices, destroyed and released exactly once and the size is reduced by one. No partially linked or leaked element is left behind in any case, and failure is reported.",
 ["inputs","fault_sequences","configurations"],"Every index stack, every modifier and every throw point.",
 "A modification that throws inside the second of four indices is a state no unit test reaches for every stack of indices.",
 IDX+[D+"index_base.hpp"],
 [("modify chain: each layer repositions, on failure or exception unlinks itself and reports","modify_ of every index layer"),("container-level clean-up","multi_index_container.hpp modify_")],
 [("node_count","number of elements","multi_index_container::node_count")],["modify","modify_key"])

p("C05","Modification with rollback keeps the element whenever rollback succeeds",
 "In-place modification with a rollback function leaves the element present exactly once in every index when the modification is accepted everywhere, and also when it is rejected or throws but the rollback succeeds and restores an acceptable value; only if rollback itself throws or does not restore an acceptable value is the element removed from every index, destroyed and released exactly once with the size reduced by one. If some index bans the new value no index is left repositioned.",
 ["inputs","fault_sequences","configurations"],"Every index stack, every modifier/rollback pair and every throw point.",
 "Which index rejects, whether modifier or rollback throws, and the stack of indices multiply into a space the tests sample twice.",
 IDX+[D+"index_base.hpp"],
 [("modify_rollback chain and rollback checking","modify_rollback_/check_rollback_ of every index layer"),("container-level arbitration","multi_index_container.hpp modify_(mod,back,x)")],
 [("node_count","number of elements","multi_index_container::node_count")],["modify(position,mod,back)","modify_key(position,mod,back)"])

p("C06","Every block of memory and every element object is released exactly once",
 "On every path, including all exceptional ones, each node, bucket table, pointer array and temporary buffer obtained from an allocator is given back exactly once with the size it was requested with, each element object that is constructed is destroyed exactly once before its memory is released, and nothing released or destroyed is accessed afterwards.",
 ["inputs","fault_sequences","histories"],"Every operation that allocates or releases (construction, copy, insertion, rehash, reserve, sort, merge, loading, destruction) with every allocation and element construction allowed to throw.",
 "Leaks and double releases appear on specific throw points inside copying, rehashing or sorting; the tests use a non-failing allocator.",
 ["multi_index_container.hpp",D+"copy_map.hpp",D+"auto_space.hpp",D+"bucket_array.hpp",D+"rnd_index_ptr_array.hpp",D+"header_holder.hpp",D+"node_handle.hpp",D+"archive_constructed.hpp","multi_index/hashed_index.hpp"],
 [("RAII owners of auxiliary memory","detail/auto_space.hpp, detail/copy_map.hpp, detail/header_holder.hpp"),("node construction/destruction helpers","multi_index_container.hpp allocate_node/deallocate_node/construct_value/destroy_value")],[],["allocator","element constructors/destructor"])

p("C07","Node handles own their element: no loss, duplication or double release",
 "A node handle obtained by extraction owns exactly one element: moving, swapping and destroying handles and inserting from them transfers that ownership without losing, duplicating or double-releasing the element, and an emptied handle owns nothing. A failed or throwing insertion leaves the handle (or the handle inside the returned report) still owning the element; a successful one leaves it empty. The element and its memory are released with the allocator that travels with the handle.",
 ["histories","inputs","fault_sequences"],"Every sequence of construct, move, swap, reset, insert and destroy on handles, empty or not, with equal or unequal allocators.",
 "Tests try a fixed script of handle operations; self-move, swap of empty and non-empty handles and throwing insertions combine freely in user code.",
 [D+"node_handle.hpp","multi_index_container.hpp"],
 [("ownership protocol of the handle","detail/node_handle.hpp"),("release on successful insertion only","multi_index_container.hpp insert_nh_")],[("node","owned element or null","node_handle::node")],["node_type","insert_return_type"])

p("C08","Memory is always returned to an allocator equal to the one it came from",
 "Every container allocates with its own allocator and every block is returned to the allocator (or an equal or propagated one) it was obtained from, through copying, moving, swapping, assignment, splicing and node handles, honouring the propagation traits. Copies use the allocator selected for copy construction, and elements move between containers with unequal allocators only by creating new nodes.",
 ["configurations","histories"],"Every stateful allocator type with any combination of propagation traits and any sequence of container-level operations.",
 "Tests use one or two test allocators whose instances are mostly equal; a block returned to the wrong one of two unequal allocators passes silently.",
 ["multi_index_container.hpp",D+"allocator_traits.hpp",D+"bucket_array.hpp",D+"rnd_index_ptr_array.hpp",D+"header_holder.hpp",D+"copy_map.hpp","multi_index/hashed_index.hpp","multi_index/random_access_index.hpp"],
 [("allocator propagation branches","multi_index_container.hpp copy/move assignment, swap_ and swap_elements_"),("allocator-extended construction of auxiliary arrays","hashed_index.hpp / random_access_index.hpp constructors")],[],["get_allocator","allocate/deallocate calls"])

p("C09","Swap and move exchange the complete state of the containers",
 "Swapping two containers exchanges every part of their state: elements, size, element structure of every index, comparison/hash/equality/key-extraction objects and index parameters such as maximum load factor, so that each operand behaves exactly as the other did. Moving from a container leaves it empty and valid and transfers the complete contents and size to the destination, also when elements must be transferred one by one.",
 ["configurations","inputs"],"Every index stack and any pair of container states, with propagating and non-propagating allocators.",
 "Tests compare a few observable attributes after swapping sample containers; a forgotten field (a load threshold, a size, a functor) shows only in later histories.",
 IDX+[D+"bucket_array.hpp",D+"rnd_index_ptr_array.hpp",D+"index_base.hpp"],
 [("swap chain","swap_ / swap_elements_ of every layer and container"),("move construction and assignment","multi_index_container.hpp")],[],["swap","move construction","move assignment"])

p("C10","Copies reproduce every index completely and independently",
 "Copy construction and assignment produce a container in which every index holds the same number of elements copied once each, with copies of that index's key extraction, comparison, hash and equality objects and parameters taken from the corresponding index of the source; nothing is shared with the source and the source is not modified. If copying throws, all copies made so far are destroyed and released, and a copy-assigned target keeps its previous contents.",
 ["configurations","inputs","fault_sequences"],"Every index stack, every content and every throw point of element copying and allocation.",
 "Tests copy a few sample containers; wrong functor propagation or lost clean-up depends on the index stack and on which copy throws.",
 IDX+[D+"copy_map.hpp"],
 [("element cloning with clean-up","detail/copy_map.hpp"),("per-index structure copy","copy_ of every layer"),("copy constructors of every layer","copy ctors in all index headers")],[],["copy construction","copy assignment","initializer-list assignment"])

p("C11","Operations documented as non-throwing never run code that can throw",
 "Operations documented or declared not to throw (erasure, extraction and clearing by position, destruction, swap, size and iterator access, iterator movement, reversal, relocation, rearrangement within one container, node handle operations) invoke no user comparison, hash, equality, element copy/move or allocation that could throw, and never reach an exception path.",
 ["inputs","configurations","fault_sequences"],"Every index kind and content; every user-supplied operation may throw whenever called.",
 "A test with non-throwing types cannot reveal that a throwing operation would be invoked; the guarantee quantifies over element types and predicates.",
 IDX+[D+"seq_index_node.hpp",D+"rnd_index_node.hpp",D+"node_handle.hpp"],
 [("structural operations touch nodes only","extract_, unlink, relink, relocate and reverse primitives"),("noexcept declarations","BOOST_NOEXCEPT members of container, indices, iterators and node_handle")],[],["erase","extract","clear","swap","reverse","relocate","splice within one container"])

p("C12","Const operations only read, so concurrent readers are safe",
 "Operations offered through a const container, const index or const iterator (lookup, bounds, ranges, counting, size, iteration, projection, rank queries, bucket queries, comparison, functor observers) perform no write to the container, its elements or any shared state.",
 ["schedules","inputs","configurations"],"Every const member and observer of every index kind, for every interleaving of concurrent readers.",
 "Single-threaded tests cannot observe a benign-looking cached write; a data race needs a schedule.",
 IDX+[D+"ord_index_ops.hpp",D+"rnk_index_ops.hpp",D+"hash_index_node.hpp",D+"bidir_node_iterator.hpp",D+"hash_index_iterator.hpp",D+"rnd_node_iterator.hpp"],
 [("lookup algorithms working on const data","ord_index_ops.hpp, rnk_index_ops.hpp, hashed_index.hpp find/count/equal_range")],[],["const members of container and indices"])

p("C13","Safe mode checks every stated precondition before any effect",
 "With safe mode enabled, passing an invalid, singular, out-of-bounds, foreign or wrongly ordered iterator or range to a container operation, or making an iterator step outside or dereference out of bounds, is reported through the assertion mechanism with the documented error code before the operation changes anything or touches the element.",
 ["inputs","histories"],"Every member taking iterators of every index kind and every misuse of the stated classes.",
 "The safe mode test covers a selection of misuses; the statement is about each operation, each argument and each check.",
 [D+"safe_mode.hpp","multi_index_container.hpp","multi_index/hashed_index.hpp","multi_index/sequenced_index.hpp","multi_index/random_access_index.hpp",D+"ord_index_impl.hpp","multi_index/ranked_index.hpp"],
 [("precondition macros at the head of every operation","BOOST_MULTI_INDEX_CHECK_* uses in all index headers"),("checked iterator","detail/safe_mode.hpp safe_iterator")],[],["BOOST_MULTI_INDEX_SAFE_MODE_ASSERT"])

p("C14","Safe mode invalidates exactly the iterators whose element leaves",
 "With safe mode enabled, when an element leaves a container by erasure, failed modification, extraction or clearing, every iterator of every index that refers to it becomes invalid at once; when elements are transferred by splice, merge, node transfer or swap, their iterators stay valid and belong to the destination. Operations that fail or only move elements within a container invalidate nothing.",
 ["histories","configurations"],"Every operation that removes or transfers elements, in every index of every stack.",
 "A detach forgotten in one index on one failure path is only visible to a test that keeps an iterator of precisely that index and uses it afterwards.",
 [D+"safe_mode.hpp",D+"invalidate_iterators.hpp","multi_index/hashed_index.hpp","multi_index/sequenced_index.hpp","multi_index/random_access_index.hpp",D+"ord_index_impl.hpp","multi_index_container.hpp"],
 [("detach/transfer of equivalent iterators along the extraction chain","extract_/transfer_iterators/detach_iterators in every layer")],[],["safe iterators"])

p("C15","Safe-mode iterator bookkeeping is data-race and deadlock free",
 "With safe mode and threads enabled, attaching, detaching and transferring iterators of a container from concurrent const accesses always happens while holding that container's lock, each lock taken is released on every path, and operations involving two containers acquire the two locks in a global order (and only once if they are the same), so no interleaving corrupts the iterator list or deadlocks.",
 ["schedules"],"All interleavings of concurrent creation, copy, assignment and destruction of safe iterators, and of operations on two containers in either order.",
 "No test runs safe mode multi-threaded; races and lock-order inversions need specific schedules.",
 [D+"safe_mode.hpp",D+"scoped_bilock.hpp"],
 [("attach/detach under the container mutex","detail/safe_mode.hpp safe_iterator_base, safe_container_base"),("address-ordered double locking","detail/scoped_bilock.hpp")],[("header.next","list of attached iterators","safe_container_base")],["safe iterator constructors/assignment/destructor"])

p("C16","Ordered lookups return exactly the elements the comparison defines",
 "In ordered and ranked indices, find, count, contains, lower and upper bound, equal range and range queries return exactly the elements selected by the comparison object for the requested key or bounds (first not less, first greater, an equivalent element if and only if one exists, everything between the bounds), for any strict weak ordering and any tree content, and never depend on anything but comparison outcomes.",
 ["inputs","histories"],"Every sorted content of any size, every key or pair of bounds, every strict weak ordering.",
 "Tests look up a few keys in small sets; the guarantee is a statement about every tree shape and key.",
 [D+"ord_index_ops.hpp",D+"ord_index_impl.hpp",D+"rnk_index_ops.hpp","multi_index/ranked_index.hpp"],
 [("binary search descents","ord_index_ops.hpp find/lower_bound/upper_bound/equal_range; ord_index_impl.hpp range")],[],["find","lower_bound","upper_bound","equal_range","range","count"])

p("C17","Ordered insertion keeps keys sorted and unique keys unique",
 "An element inserted in or repositioned within an ordered or ranked index, hinted or not, is placed at a position between an element not greater and an element not less than it, after all equivalent elements without a hint and as close as possible to the hinted position with one; in a unique index an element equivalent to an existing one is always refused and a non-equivalent one never is, and an element is considered in place after modification only if it is still properly ordered with respect to both neighbours.",
 ["inputs","histories"],"Every sorted content, hint and new key, and every strict weak ordering.",
 "Hints just before, at and after the right place in trees of every shape are more than tests can list.",
 [D+"ord_index_impl.hpp",D+"ord_index_node.hpp"],
 [("insertion point search","ord_index_impl.hpp link_point, lower_link_point, upper_link_point, hinted_link_point"),("in-place tests","ord_index_impl.hpp in_place")],[],["insert","insert with hint","replace","modify"])

p("C18","Rank operations agree with in-order positions",
 "In ranked indices the rank reported for a position, the position reported for a rank, and the ranks reported for lookups and bounds always equal the number of elements preceding in the traversal order, and the subtree counts these computations use are maintained by every insertion, removal, rotation and copy.",
 ["inputs","histories"],"Every tree shape reachable by insertions, removals and rebalancing, and every rank, position and key.",
 "Tests compare ranks with distances on a few small containers; a count not updated in one rotation case surfaces only for specific histories.",
 ["multi_index/ranked_index.hpp",D+"rnk_index_ops.hpp",D+"ord_index_node.hpp"],
 [("subtree size maintenance","ranked_index.hpp rank_policy, ord_index_node.hpp"),("rank arithmetic along descents","rnk_index_ops.hpp")],[("size","number of nodes in the subtree","ranked_node_size")],["rank","nth","find_rank","lower_bound_rank","range_rank"])

p("C19","Composite keys compare lexicographically, equal and hash consistently",
 "Composite keys compare lexicographically on their components (using each component's comparison object in order, with a shorter tuple acting as a prefix), compare equal if and only if all components are equal, and hash to the same value whether the key is extracted from an element or given as a tuple of the same component values; the comparison operators derived from these agree with one another for every combination of component outcomes.",
 ["inputs","configurations"],"All component values (that is, all combinations of component comparison outcomes), all key lengths, both operand orders, key/key and key/tuple forms.",
 "Tests sample a handful of component values for lengths up to three; the statement is about all outcome combinations, operand orders and tuple kinds.",
 ["multi_index/composite_key.hpp"],
 [("recursive component comparison","composite_key.hpp equal_/compare_/hash_ helper families")],[],["composite_key_result operators","composite_key_compare/equal_to/hash"])

p("C20","Rehashing and hashed insertion never lose elements or use stale positions",
 "In hashed indices no element's bucket is chosen from a table or hash value that has since been replaced: growing the table happens before the insertion position is computed, every hash needed by a rehash is computed before any element is moved, and if hashing or allocation throws the table and all elements stay as they were. All elements are relinked into the new table, and the bucket of an element is always determined from its hash and the current table size.",
 ["inputs","fault_sequences","histories"],"Every content, load factor, bucket count and throw point.",
 "Rehash with a throwing hash at the n-th element, or a rehash between position search and linking, needs a specific size and threshold.",
 ["multi_index/hashed_index.hpp",D+"hash_index_node.hpp",D+"bucket_array.hpp"],
 [("reserve before link point","hashed_index.hpp insert_ / replace_ / modify_"),("two-phase rehash","hashed_index.hpp unchecked_rehash")],[("max_load","size threshold that triggers growth","hashed_index")],["rehash","reserve","insert","max_load_factor"])

p("C21","Rearranging operations never lose or duplicate elements",
 "Splicing, merging, sorting, removing, deduplicating, relocating, rearranging and reversing sequenced and random access indices leave every element in every index exactly once except those explicitly removed, also when a comparison or predicate throws in the middle; elements transferred from another container belong to exactly one of the two containers at any exit and both sizes agree with that.",
 ["inputs","fault_sequences","histories"],"Every content, predicate and throw point, in-container and cross-container forms.",
 "Tests do not throw from list predicates; intermediate list states are exposed only by an exception at a particular comparison.",
 ["multi_index/sequenced_index.hpp","multi_index/random_access_index.hpp",D+"seq_index_ops.hpp",D+"rnd_index_ops.hpp","multi_index_container.hpp"],
 [("list algorithms","seq_index_ops.hpp, rnd_index_ops.hpp"),("cross-container splice with rollback","sequenced_index.hpp / random_access_index.hpp external_splice, transfer_")],[],["splice","merge","sort","unique","remove_if","rearrange"])

p("C22","Elements are immutable through the interface; ill-formed uses are rejected",
 "User code cannot obtain a mutable reference, pointer or iterator to an element stored in a container through any index, iterator, local iterator, node-handle-free access or key extractor default, except through the modifying operations; containers are copyable and movable and their special members have the documented noexcept-ness; ill-formed uses (duplicate tags, unknown tag or index number, non-index specifiers, projecting foreign iterators) do not compile.",
 ["programs","configurations"],"All well-typed programs using the interface.",
 "Run-time tests cannot show that no program can do something; that is a fact about types.",
 IDX+["multi_index/tag.hpp",D+"no_duplicate_tags.hpp",D+"bidir_node_iterator.hpp",D+"hash_index_iterator.hpp",D+"rnd_node_iterator.hpp"],
 [("const value_type iterators","all iterator classes"),("static assertions on tags and indices","tag.hpp, no_duplicate_tags.hpp, multi_index_container.hpp")],[],["compile-time interface"])

p("C23","Saving and loading are mirror images, and bad archives are rejected",
 "For every index kind and every serialized object, the sequence of items written when saving is exactly the sequence of items read when loading (including per-version differences), positions that do not exist in the loaded data are rejected with an exception instead of being used, and a load that throws leaves no leaked or half-linked element.",
 ["inputs","configurations","fault_sequences"],"Every index stack, every content and every (possibly corrupt or older) archive.",
 "Round-trip tests cover a few sample containers with intact archives; field mismatches between save and load in one index or version need that index, version and history.",
 ["multi_index_container.hpp",D+"index_saver.hpp",D+"index_loader.hpp",D+"rnd_index_loader.hpp",D+"index_matcher.hpp",D+"archive_constructed.hpp",D+"index_node_base.hpp",D+"hash_index_iterator.hpp",D+"bidir_node_iterator.hpp",D+"rnd_node_iterator.hpp"],
 [("save/load pairs of container, indices, nodes and iterators","save_/load_ and serialize members"),("range checks on loaded positions","index_loader.hpp, index_node_base.hpp")],[],["boost::serialization save/load"])

p("C24","Structural operations never copy, move or destroy surviving elements",
 "References and iterators to an element stay valid until it is erased: no insertion, erasure of other elements, rehash, reserve, sort, splice, swap, rearrangement or successful modification copies, move-constructs, relocates or destroys an element that stays in a container, and lookups never do; an element's storage is allocated once.",
 ["histories","configurations"],"Every operation of every index kind and any content.",
 "Address stability must hold over all histories; tests compare a few iterators after a few operations.",
 IDX+[D+"seq_index_ops.hpp",D+"rnd_index_ops.hpp"],
 [("node-based storage; only links are edited","all index headers")],[],["iterator/reference validity"])

p("C25","Exceptions from user code always reach the caller unchanged",
 "An exception thrown by a comparison, hash, equality, key extraction, element operation, modifier, predicate or allocator during any operation propagates to the caller as the same exception after clean-up; it is never swallowed, replaced (other than by a later exception of a rollback function) or turned into a reported success.",
 ["fault_sequences","inputs","configurations"],"Every operation and every user-supplied operation it calls.",
 "Each catch block is executed only if a throw happens at its point; the tests reach few of them.",
 IDX+[D+"copy_map.hpp"],
 [("handlers that clean up and rethrow","every BOOST_CATCH in the library")],[],["all operations"])

p("C26","Linked-list and bucket-list surgery preserves a well-formed structure",
 "Linking, unlinking, relinking, swapping and reversing nodes in sequenced lists, hashed bucket lists and random access pointer arrays keep the structure well formed for every neighbourhood: forward and backward links stay inverse to each other, a node is reachable exactly when linked, and no unrelated node's links are changed.",
 ["inputs","histories"],"Every local configuration (neighbours equal or distinct, header or element, group of one, two or more equivalent elements, first/last in bucket).",
 "Degenerate neighbourhoods (adjacent nodes, last group in last bucket) occur only for specific contents and histories.",
 [D+"seq_index_node.hpp",D+"hash_index_node.hpp",D+"rnd_index_node.hpp",D+"rnd_index_ptr_array.hpp"],
 [("list primitives","seq_index_node.hpp link/unlink/relink/reverse/swap; hash_index_node.hpp alg; rnd_index_node.hpp")],[],["iteration in both directions"])

p("C27","Tree rebalancing preserves order and red-black balance",
 "Linking, unlinking and rebalancing nodes of ordered and ranked indices preserves the in-order sequence, the parent/child consistency of links and the red-black invariants (no red node with a red child, equal black height on all paths, black root), and keeps the header's leftmost, rightmost and root links exact.",
 ["inputs","histories"],"Every tree shape and colouring and every insertion or removal point.",
 "Some rebalancing cases need trees of particular shapes; tests insert a few dozen elements.",
 [D+"ord_index_node.hpp"],
 [("rebalancing","ord_index_node.hpp link, rebalance, rebalance_for_extract, rotate_left, rotate_right, restore")],[],["ordered iteration","logarithmic lookup"])

p("C28","Hashed lookups and comparisons return exactly the equivalent elements",
 "In hashed indices find, count, contains and equal_range return exactly the elements equal to the key under the equality object, looking only in the bucket selected by the hash of the key, a unique index refuses an element if and only if an equal one is present, and index equality compares the groups of equivalent elements of both operands completely.",
 ["inputs","histories"],"Every content, hash function (including constant ones) and key.",
 "Outcome depends on group structure inside buckets, which tests sample with well-spread integer hashes.",
 ["multi_index/hashed_index.hpp",D+"hash_index_node.hpp"],
 [("bucket search and group traversal","hashed_index.hpp find/count/equal_range/link_point/equals")],[],["find","count","equal_range","operator=="])

p("C29","Key extractors read the designated part of the element, whatever the chain",
 "The predefined key extractors return exactly the designated member, member function result, function result or the object itself, for objects, reference wrappers and any chain of pointers, dereferencing the chain to its end, never modify or copy the element, and give write access only where the key and the element are non-const.",
 ["programs","inputs","configurations"],"Every extractor kind, constness and pointer-chain depth.",
 "Tests instantiate a few chains; overload selection errors show for particular constness combinations only.",
 ["multi_index/member.hpp","multi_index/mem_fun.hpp","multi_index/global_fun.hpp","multi_index/identity.hpp","multi_index/key.hpp","multi_index/composite_key.hpp"],
 [("const/non-const, chained-pointer and reference-wrapper overloads","member.hpp, mem_fun.hpp, global_fun.hpp, identity.hpp")],[],["key extractors"])

p("C30","Documented complexity bounds",
 "Every operation runs within its documented complexity (logarithmic, amortized constant, linear in the number of affected elements), including hinted insertion and rank computation.",
 ["inputs","histories"],"All contents and sizes.","Timing of sample runs says nothing about growth for all inputs.",
 IDX,[("algorithms of every index","all headers")],[],["running time"])

p("C31","A load restores exactly the saved order of every index",
 "Loading an archive produces a container in which every index has exactly the element order and grouping it had when saved.",
 ["inputs","histories"],"All contents and histories.","Round trips of samples only.",
 [D+"index_saver.hpp",D+"index_loader.hpp",D+"index_matcher.hpp",D+"rnd_index_loader.hpp"],
 [("position matching by longest increasing subsequence","index_matcher.hpp")],[],["save then load"])

with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+"\n")
print(len(P))
