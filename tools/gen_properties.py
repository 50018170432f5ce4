#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script only to keep the JSON readable)."""
import json, os
I = 'include/fixed_containers/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[I+f for f in files],
                          mechanism=[dict(name=n, where=I+w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)

prop('P01', 'A fixed vector behaves like std::vector',
 'After any sequence of in-capacity operations (construction, push/pop/emplace, every insert, assign, erase and resize form, element writes, free erase/erase_if), a fixed vector holds exactly the elements, in the order, and returns exactly the positions and values that std::vector would, including when an argument refers to one of its own elements. Size, emptiness, fullness, element access and contiguous data always agree with that content.',
 ['histories','inputs','configurations'], 'all operation sequences on a vector, for every capacity, element type and argument choice (positions, counts, iterator categories, own-element arguments)',
 'The tests run a handful of fixed sequences on mostly int/own mock elements; the order-dependent shift logic is reached only in a few position/count combinations.',
 ['fixed_vector.hpp','optional_storage.hpp','memory.hpp','random_access_iterator_transformer.hpp'],
 [('shift elements up/down around an insertion or erasure','fixed_vector.hpp (advance_all_after_iterator_by_n, erase, insert_internal)'),('size bookkeeping','fixed_vector.hpp (increment_size/set_size)')])
prop('P02', 'A fixed deque behaves like std::deque',
 'After any sequence of in-capacity operations at either end or in the middle, a fixed deque holds exactly the elements, in the order, and returns exactly the positions and values that std::deque would, wherever its content happens to lie in (or wrap around) its buffer and including when an argument refers to one of its own elements.',
 ['histories','inputs','configurations'], 'all operation sequences, hence all physical offsets of the content in the ring, for every capacity and element type',
 'The tests start most sequences from a fresh deque; the wrapped layouts are sampled with a few hand-picked start offsets.',
 ['fixed_deque.hpp','circular_indexing.hpp','circular_integer_range_iterator.hpp','integer_range.hpp'],
 [('ring start/distance bookkeeping','fixed_deque.hpp'),('wraparound arithmetic','circular_indexing.hpp')])
prop('P03', 'Circular deque and circular queue overwrite the far end when full',
 'While not full, a circular deque or circular queue behaves like std::deque or std::queue; when full, adding at the back drops the front-most element and adding at the front drops the back-most one, so that it always holds exactly the surviving elements in order, never more than its capacity, and never reports a capacity error for adding elements. Insertion in the middle when full first drops elements from the front, and what remains and the returned position follow that rule, whatever the iterator category of the input and even if an argument refers to an element of the container.',
 ['histories','inputs','configurations'], 'all operation sequences through the full boundary, for every capacity, fill level and physical offset',
 'The overwrite path depends on fill level, position and ring offset together; tests sample a few of the combinations.',
 ['fixed_circular_deque.hpp','fixed_circular_queue.hpp','fixed_deque.hpp','queue_adapter.hpp'],
 [('eviction before insertion','fixed_circular_deque.hpp (push_back, push_front, insert)')])
prop('P04', 'A fixed list behaves like std::list',
 'After any sequence of in-capacity operations (both-end push/pop/emplace, every insert, assign, erase and resize form, remove and remove_if), a fixed list holds exactly the elements, in the order and with forward and backward links agreeing, and returns exactly the positions, counts and values that std::list would; capacity freed by removal is always available again.',
 ['histories','inputs','configurations'], 'all operation sequences, hence all allocation orders of the node pool, for every capacity and element type',
 'The free-list/link state depends on the whole history of insertions and removals; tests exercise short histories.',
 ['fixed_list.hpp','fixed_doubly_linked_list.hpp','fixed_index_based_storage.hpp','index_or_value_storage.hpp'],
 [('node linking','fixed_doubly_linked_list.hpp'),('free list','fixed_index_based_storage.hpp (FixedIndexBasedPoolStorage)')])
prop('P05', 'A fixed string behaves like std::string and stays NUL-terminated',
 'After any sequence of in-capacity operations, a fixed string holds the characters, and returns the positions, views, search and comparison results, that std::string would for the operations both offer. Its character data is followed by a NUL terminator after every operation, so that it can be used as a C string of the right length.',
 ['histories','inputs','configurations'], 'all operation sequences over a small alphabet (including NUL characters), all argument strings, positions and lengths, every capacity',
 'Tests use a few literals; termination must hold after every mutation from every state including full and empty.',
 ['fixed_string.hpp','fixed_vector.hpp','string_literal.hpp'],
 [('re-termination after mutation','fixed_string.hpp (null_terminate, ScopedNullTermination)')])
prop('P06', 'A fixed map behaves like std::map',
 'After any sequence of in-capacity operations, a fixed map contains exactly the keys and values std::map would contain, iterates in the order of its comparator in both directions, and every lookup, bound, count, insertion (existing keys are not overwritten except by assignment forms), erasure and extraction of the next position returns what std::map would return, for any comparator, heterogeneous lookups included.',
 ['histories','inputs','configurations'], 'all operation sequences over small key sets, hence all tree shapes, node placements and rebalancing paths; both node storages and both color layouts; stateful comparators',
 'Rebalancing after deletion has many cases that depend on shape and colors; tests insert/erase in a few orders.',
 ['fixed_map.hpp','fixed_map_adapter.hpp','fixed_red_black_tree.hpp','fixed_red_black_tree_ops.hpp','fixed_red_black_tree_nodes.hpp','fixed_red_black_tree_storage.hpp','fixed_red_black_tree_types.hpp','fixed_index_based_storage.hpp','map_entry.hpp','emplace.hpp','pair_view.hpp'],
 [('rebalancing','fixed_red_black_tree.hpp (fix_after_insertion/fix_after_deletion)'),('map operations','fixed_map_adapter.hpp, fixed_map.hpp')])
prop('P07', 'A fixed set behaves like std::set',
 'After any sequence of in-capacity operations, a fixed set contains exactly the keys std::set would contain, iterates in the order of its comparator in both directions, and every lookup, bound, count, insertion, erasure and returned position is what std::set would give, for any comparator, heterogeneous lookups included.',
 ['histories','inputs','configurations'], 'all operation sequences over small key sets; both node storages and both color layouts; stateful comparators',
 'As for the map: shape- and history-dependent rebalancing and node placement that tests sample.',
 ['fixed_set.hpp','fixed_set_adapter.hpp','fixed_red_black_tree.hpp','fixed_red_black_tree_ops.hpp','fixed_red_black_tree_nodes.hpp','fixed_red_black_tree_storage.hpp','fixed_index_based_storage.hpp'],
 [('set operations','fixed_set.hpp'),('tree','fixed_red_black_tree.hpp')])
prop('P08', 'A fixed unordered map behaves like std::unordered_map',
 'After any sequence of in-capacity operations and whatever the hash function (all collisions included), a fixed unordered map contains exactly the keys and values std::unordered_map would contain, visits each entry exactly once when iterated, and every lookup, insertion, assignment, erasure and returned position identifies the entry std::unordered_map would identify.',
 ['histories','inputs','configurations'], 'all operation sequences over small key sets for a family of hash functions from collision-free to constant, every capacity/bucket-count relation',
 'Displacement and backward-shift on erase depend on the collision pattern; tests use the default hash and few keys.',
 ['fixed_unordered_map.hpp','fixed_map_adapter.hpp','fixed_robinhood_hashtable.hpp','fixed_doubly_linked_list.hpp','fixed_index_based_storage.hpp','wyhash.hpp','map_entry.hpp','emplace.hpp'],
 [('probe, displacement, backward shift','fixed_robinhood_hashtable.hpp')])
prop('P09', 'A fixed unordered set behaves like std::unordered_set',
 'After any sequence of in-capacity operations and whatever the hash function (all collisions included), a fixed unordered set contains exactly the keys std::unordered_set would contain, visits each exactly once when iterated, and every lookup, insertion, erasure and returned position identifies the key std::unordered_set would identify.',
 ['histories','inputs','configurations'], 'all operation sequences over small key sets for a family of hash functions from collision-free to constant',
 'As for the unordered map.',
 ['fixed_unordered_set.hpp','fixed_set_adapter.hpp','fixed_robinhood_hashtable.hpp','fixed_doubly_linked_list.hpp','fixed_index_based_storage.hpp','wyhash.hpp'],
 [('set operations','fixed_set_adapter.hpp'),('hash table','fixed_robinhood_hashtable.hpp')])
prop('P10', 'Enum maps and enum arrays behave like std::map / std::array keyed by enum',
 'An enum map holds exactly the entries std::map keyed by the enum would hold after the same operations, iterates in the enum\'s ordinal order (the order of its list of values) in both directions, and returns the same values, positions and counts. An enum array always has exactly one element per enumerator, addressed by enumerator independently of all others.',
 ['histories','inputs','configurations'], 'all operation sequences over all enumerators, for plain enums with gaps/negative values and rich enums; every subset of present keys',
 'The presence flags and the value slots must stay in step for every subset and order; tests use a few subsets.',
 ['enum_map.hpp','enum_array.hpp','enum_utils.hpp','filtered_integer_range_iterator.hpp','optional_storage.hpp'],
 [('presence flags + size','enum_map.hpp'),('skipping absent keys','filtered_integer_range_iterator.hpp')])
prop('P11', 'Enum sets behave like std::set of the enum with exact set algebra',
 'An enum set holds exactly the enumerators std::set would hold after the same operations, iterates in the enum\'s ordinal order in both directions, and returns the same positions and counts; the all/none/complement factories yield exactly the respective sets.',
 ['histories','inputs','configurations'], 'all subsets of the enumerators and all operation sequences on them',
 'Tests use a few subsets of one or two enums.',
 ['enum_set.hpp','enum_utils.hpp','filtered_integer_range_iterator.hpp'],
 [('presence flags','enum_set.hpp')])
prop('P12', 'Stack and queue adapters are LIFO / FIFO',
 'For every sequence of push, emplace and pop within capacity, a fixed stack yields elements in exactly last-in-first-out order and a fixed queue in first-in-first-out order, with size, emptiness, fullness, top/front/back and comparisons always agreeing with the content.',
 ['histories','inputs'], 'all operation sequences for each capacity',
 'Tests check single short sequences.',
 ['fixed_stack.hpp','fixed_queue.hpp','stack_adapter.hpp','queue_adapter.hpp'],
 [('adapter forwarding','stack_adapter.hpp, queue_adapter.hpp')])
prop('P13', 'Misuse is always reported, and only misuse is reported',
 'Exceeding the capacity, accessing an element that does not exist (index or key out of range, empty container) or erasing a non-existent position always invokes the container\'s error policy with the matching error kind and figures (offending index or key, size, requested capacity) before any memory outside the container is touched; by default that aborts. Operations within the contract never invoke it.',
 ['histories','inputs','configurations'], 'every state of every container x every operation with every argument class, legal or not',
 'Death tests cover one call per API from one state; off-by-one in a bound check is visible only at particular sizes/positions.',
 ['sequence_container_checking.hpp','map_checking.hpp','set_checking.hpp','optional_reference_checking.hpp','preconditions.hpp','assert_or_abort.hpp','fixed_vector.hpp','fixed_deque.hpp','fixed_list.hpp','fixed_string.hpp','fixed_map_adapter.hpp','fixed_map.hpp','fixed_set.hpp','fixed_set_adapter.hpp','enum_map.hpp'],
 [('precondition tests','preconditions.hpp and check_* helpers in each container'),('policies','sequence_container_checking.hpp, map_checking.hpp, set_checking.hpp')])
prop('P14', 'Every element is constructed once, destroyed once, and used only while alive',
 'Whatever the sequence of operations, a container never reads, assigns, moves from or destroys an element that is not alive, never constructs over a live one, holds exactly as many live elements as its size, and leaves none behind when cleared or destroyed. Elements that cannot be copied are only ever moved.',
 ['histories','inputs','configurations'], 'all operation sequences with non-trivial, move-only and partially trivial element types',
 'Instance-counter tests check totals at the end of a few sequences; compensating errors and use of dead storage stay invisible.',
 ['memory.hpp','optional_storage.hpp','index_or_value_storage.hpp','fixed_vector.hpp','fixed_deque.hpp','fixed_circular_deque.hpp','fixed_list.hpp','fixed_doubly_linked_list.hpp','fixed_index_based_storage.hpp','fixed_red_black_tree.hpp','fixed_red_black_tree_nodes.hpp','fixed_red_black_tree_storage.hpp','enum_map.hpp','fixed_robinhood_hashtable.hpp'],
 [('placement construction/destruction','memory.hpp'),('slot unions','optional_storage.hpp, index_or_value_storage.hpp')])
prop('P15', 'Copies are equal and independent; moves and swaps transfer the whole content',
 'Copying a container by construction or assignment, from any state into any state, yields an equal and fully functional container (comparator or hash function included), leaves the source unchanged, and the two share nothing afterwards. Moving transfers the whole content and leaves the source valid (it can be inspected, cleared, reused and destroyed); swapping exchanges contents; self-assignment changes nothing.',
 ['histories','inputs','configurations'], 'all pairs of reachable source and destination states for each container and element triviality class',
 'Tests copy one or two states; correctness depends on both operands\' internal layout (ring offset, free list, tree shape, buckets).',
 ['fixed_vector.hpp','fixed_deque.hpp','fixed_circular_deque.hpp','fixed_list.hpp','fixed_doubly_linked_list.hpp','fixed_index_based_storage.hpp','fixed_red_black_tree.hpp','fixed_robinhood_hashtable.hpp','enum_map.hpp','fixed_string.hpp'],
 [('non-trivial special members','per container'),('layout-preserving list copy','fixed_doubly_linked_list.hpp (nontrivial_copy_impl/nontrivial_move_impl)')])
prop('P16', 'References and iterators stay valid where std guarantees it',
 'Pointers, references and iterators to elements of node-like containers (list, map, set and unordered containers with default storage, enum maps) keep denoting the same element across any insertion and any erasure of other elements; for vectors, operations do not relocate elements before the point of change, and for deques, pushes and pops at the ends relocate no other element. Iteration continued from the position returned by an erasure visits exactly the remaining elements.',
 ['histories','inputs','configurations'], 'every reachable state x every operation x every element',
 'Requires tracking the address of every element over all histories.',
 ['fixed_list.hpp','fixed_doubly_linked_list.hpp','fixed_index_based_storage.hpp','fixed_red_black_tree.hpp','fixed_red_black_tree_ops.hpp','fixed_map.hpp','fixed_set.hpp','fixed_robinhood_hashtable.hpp','fixed_vector.hpp','fixed_deque.hpp','enum_map.hpp'],
 [('pool storage never moves entries','fixed_index_based_storage.hpp'),('node swap on deletion','fixed_red_black_tree_ops.hpp')])
prop('P17', 'Iterators obey the std iterator laws in both directions and constness',
 'In every container state, the iterators of each container satisfy the laws of their category: ++/-- and +=/-=/+/-/[] (where offered) reach exactly the element at the corresponding distance, differences and orderings agree with positions, reverse iteration visits exactly the reverse sequence and base() relates the two, and conversions from mutable to constant iterators keep the position. Range-based iteration over const and non-const containers visits the same elements.',
 ['histories','inputs','configurations'], 'every reachable container state x every pair of iterator positions x every distance',
 'Tests check some arithmetic on one or two states; wraparound and end positions are rarely combined with reverse and const flavours.',
 ['random_access_iterator.hpp','bidirectional_iterator.hpp','forward_iterator.hpp','random_access_iterator_transformer.hpp','iterator_utils.hpp','arrow_proxy.hpp','circular_integer_range_iterator.hpp','filtered_integer_range_iterator.hpp','fixed_list.hpp','fixed_map.hpp','fixed_set.hpp','fixed_deque.hpp'],
 [('iterator adaptors','random_access_iterator.hpp, bidirectional_iterator.hpp, forward_iterator.hpp')])
prop('P18', 'Comparisons depend on content only and agree with std',
 'Equality and ordering of two containers (also of different capacities where offered) depend only on their abstract contents, never on how they were built or where elements lie internally, and give the answer of the corresponding std container, so that equality is an equivalence and ordering is consistent with it.',
 ['histories','inputs','configurations'], 'all pairs of reachable states, including states with equal content but different internal layout',
 'Tests compare a few freshly built containers; leftovers of erased elements or different layouts are not paired.',
 ['fixed_vector.hpp','fixed_deque.hpp','fixed_circular_deque.hpp','fixed_list.hpp','fixed_string.hpp','fixed_map.hpp','fixed_set.hpp','fixed_unordered_map.hpp','fixed_unordered_set.hpp','fixed_map_adapter.hpp','fixed_set_adapter.hpp','enum_map.hpp','enum_set.hpp','enum_array.hpp','stack_adapter.hpp','queue_adapter.hpp','comparison_chain.hpp'],
 [('operator== / operator<=>','per container')])
prop('P19', 'Containers of trivially copyable elements survive byte-wise relocation',
 'A container of trivially copyable elements is itself trivially copyable, and a byte-for-byte copy of it placed at any other suitably aligned address is equal to the original and behaves identically under every further operation, with the original gone: it stores no addresses.',
 ['histories','inputs','configurations'], 'every reachable state of every container, relocated, followed by every operation',
 'Tests assert type traits only; they do not run relocated instances.',
 ['concepts.hpp','fixed_vector.hpp','fixed_deque.hpp','fixed_list.hpp','fixed_doubly_linked_list.hpp','fixed_index_based_storage.hpp','fixed_red_black_tree.hpp','fixed_red_black_tree_nodes.hpp','fixed_red_black_tree_types.hpp','fixed_robinhood_hashtable.hpp','enum_map.hpp','fixed_string.hpp','index_or_value_storage.hpp','optional_storage.hpp'],
 [('index-based layout','fixed_index_based_storage.hpp, fixed_red_black_tree_nodes.hpp, fixed_doubly_linked_list.hpp')])
prop('P20', 'Compile-time and run-time evaluation agree',
 'Every container operation sequence that is legal can be evaluated in a constant expression and yields there exactly the result it yields at run time.',
 ['histories','inputs','configurations'], 'all short operation sequences on every container, evaluated both ways',
 'Tests evaluate a few sequences at compile time; some code paths differ between compile time and run time.',
 ['memory.hpp','fixed_index_based_storage.hpp','fixed_doubly_linked_list.hpp','fixed_vector.hpp','fixed_deque.hpp','fixed_circular_deque.hpp','fixed_list.hpp','fixed_string.hpp','fixed_map.hpp','fixed_set.hpp','fixed_unordered_map.hpp','fixed_unordered_set.hpp','enum_map.hpp','enum_set.hpp','wyhash.hpp','preconditions.hpp'],
 [('is_constant_evaluated branches','fixed_index_based_storage.hpp, wyhash.hpp, memory.hpp')])
prop('P21', 'Ordered maps and sets stay balanced',
 'For every history of insertions and erasures, looking up or inserting a key in an ordered map or set of n entries inspects at most 2*log2(n+1) entries, plus a small constant.',
 ['histories','inputs','configurations'], 'all insertion/erasure histories over small key sets, all insertion orders up to a bound, and run-structured histories for large n',
 'Tests only check content; an unbalanced tree returns right answers slowly.',
 ['fixed_red_black_tree.hpp','fixed_red_black_tree_ops.hpp','fixed_red_black_tree_nodes.hpp','fixed_red_black_tree_storage.hpp'],
 [('rebalancing','fixed_red_black_tree.hpp (fix_after_insertion, fix_after_deletion, rotations)')])
prop('P22', 'Type-erased raw views show exactly the container content',
 'A raw view constructed with the right element sizes, alignments and capacity over any list, deque, unordered map or set, or ordered map, in any state, reports the size and yields, in the container\'s own iteration order, the addresses of exactly the elements (keys and values) the container holds.',
 ['histories','inputs','configurations'], 'every reachable state x element size/alignment combinations x capacities x index widths/color layouts',
 'The views recompute the layout by hand; tests check a few element types, where many mistakes cancel out.',
 ['fixed_deque_raw_view.hpp','fixed_doubly_linked_list_raw_view.hpp','fixed_map_raw_view.hpp','fixed_red_black_tree_view.hpp','fixed_unordered_map_raw_view.hpp','fixed_unordered_set_raw_view.hpp','map_entry_raw_view.hpp'],
 [('layout recomputation','*_raw_view.hpp, fixed_red_black_tree_view.hpp')])
prop('P23', 'Integer ranges, their iterators and index arithmetic are exact',
 'For every range and position, integer-range, circular and filtered range iterators visit exactly the integers of the range (respectively the wrapped or the accepted ones), in order in both directions, with exact arithmetic, differences, orderings and wraparound, stopping at the ends. The integer helpers (checked signed/unsigned addition, subtraction and rounding-up division) return the mathematically exact result.',
 ['inputs','configurations'], 'all small ranges x positions x step sizes (including ranges starting at zero and boundary values of the integer types)',
 'Tests sample a few ranges and steps.',
 ['integer_range.hpp','integer_range_iterator.hpp','circular_integer_range_iterator.hpp','circular_indexing.hpp','filtered_integer_range_iterator.hpp','int_math.hpp','random_access_iterator.hpp'],
 [('advance/recede with clamping or wraparound','integer_range_iterator.hpp, circular_indexing.hpp, filtered_integer_range_iterator.hpp'),('sign-safe arithmetic','int_math.hpp')])
prop('P24', 'Enum reflection round-trips',
 'For every enum and rich enum, the count, the list of values, ordinals and names are mutually consistent bijections (ascending by value for reflected enums, in the adapter\'s order otherwise): value lookups by name and by ordinal return exactly the enumerator that has it and nothing for anything else, and equality and has-value of rich enums follow the declared constants, with a default-constructed one equal only to other default-constructed ones.',
 ['inputs','configurations'], 'every enumerator, every ordinal and every name or near-name of enums of several shapes (gaps, negative values, sparse, single-valued, rich, skippable default)',
 'Tests check one or two enums.',
 ['enum_utils.hpp','enum_array.hpp'],
 [('adapter and rich enum base','enum_utils.hpp')])
prop('P25', 'An optional reference is empty or denotes exactly one object',
 'For every sequence of constructions, assignments, emplacements, resets and swaps, an optional reference is empty or denotes exactly the object it was last bound to (rebinding, never writing through on assignment), its observers, fallbacks and comparisons agree with an optional pointer to that object, and access when empty is reported.',
 ['histories','inputs'], 'all operation sequences over a small set of referents, including equal-valued ones',
 'Tests cover single operations from one state.',
 ['optional_reference.hpp','optional_reference_checking.hpp'],
 [('pointer-backed optional','optional_reference.hpp')])
prop('P26', 'Struct views denote exactly the like-named fields of the viewed object',
 'For a struct and a sub-struct of pointers whose field paths all occur in it (nested structs, arrays, optionals and resizable containers included), binding a freshly initialised sub-struct view to an object makes every pointer denote exactly the same-named field of that object (element by element for arrays and containers) and changes no byte of the object; a view over a contiguous range yields entry i for index i. Reflection enumerates every field of a struct exactly once, in declaration order, with its real name and offset.',
 ['inputs','configurations'], 'all field subsets/orders and all values of a family of struct shapes',
 'Tests use one or two struct pairs.',
 ['struct_view.hpp','recursive_reflection.hpp','reflection.hpp','struct_decomposition.hpp'],
 [('path map and offsets','struct_view.hpp'),('field enumeration','recursive_reflection.hpp, reflection.hpp')])
prop('P27', 'No operation allocates memory',
 'No operation of any container, from any state, allocates dynamic memory when its element type does not: the object\'s own storage, fixed at compile time, is all it ever uses.',
 ['histories','inputs','configurations'], 'every reachable state x every operation of every container',
 'No test watches the allocator.',
 ['fixed_vector.hpp','fixed_deque.hpp','fixed_list.hpp','fixed_map.hpp','fixed_set.hpp','fixed_unordered_map.hpp','fixed_unordered_set.hpp','fixed_string.hpp','enum_map.hpp','enum_set.hpp','fixed_red_black_tree.hpp','fixed_robinhood_hashtable.hpp'],
 [('inline storage','all containers')])

prop('P28', 'Default hashing is a function of the value of the key',
 'Keys that compare equal have the same default hash wherever they are stored and however they were produced, at compile time as at run time, and computing it reads nothing but the key: so hash containers with default hashing find, and only find, equal keys for every supported key type (strings and views of any length and character type, integers, enums, floating point, pointers).',
 ['inputs','histories','configurations'], 'string lengths 0..200 x patterns x placements x character types; boundary values of the scalar types; all short insertion/erasure histories over boundary key domains',
 'Tests hash a few strings in place; lengths, alignments and neighbours are not varied.',
 ['wyhash.hpp','fixed_unordered_map.hpp','fixed_unordered_set.hpp','fixed_robinhood_hashtable.hpp'],
 [('hash<T> specialisations and block reads','wyhash.hpp')])
prop('P29', 'Value utilities denote exactly what they are given',
 'For every input, a comparison chain answers as the lexicographic comparison of the compared pairs; pair views and in/out parameter wrappers denote exactly the objects they were bound to, through every accessor and conversion; a string literal reports its exact characters and length; tuple and argument-pack iteration visits every entry once, in order, with its index.',
 ['inputs','configurations'], 'all chains up to length 4 over all orderings; all bindings of small object sets',
 'Tests check single examples of each.',
 ['comparison_chain.hpp','pair.hpp','pair_view.hpp','in_out.hpp','out.hpp','string_literal.hpp','tuples.hpp','variadic_templates.hpp','type_name.hpp'],
 [('value utilities','comparison_chain.hpp, pair_view.hpp, string_literal.hpp, tuples.hpp')])

prop('P30', 'Containers retain the type properties of their elements',
 'For every element type, a container is copyable, movable, assignable and destructible whenever the element type is, is trivially copyable exactly when the element type is (never claiming a trivial construction or destruction its elements do not have), and any instance built in constant evaluation from structural elements can be passed as a template argument and shows the same content there.',
 ['configurations','histories'], 'all combinations of trivial / user-provided / deleted special members x all containers; all short construction histories passed as template arguments',
 'Tests assert the traits for a handful of element types and pass one instance per container as a template argument.',
 ['concepts.hpp','fixed_vector.hpp','fixed_deque.hpp','fixed_circular_deque.hpp','fixed_list.hpp','fixed_doubly_linked_list.hpp','fixed_red_black_tree.hpp','fixed_robinhood_hashtable.hpp','optional_storage.hpp','index_or_value_storage.hpp','enum_map.hpp','enum_array.hpp','stack_adapter.hpp','queue_adapter.hpp'],
 [('constrained special members','fixed_vector.hpp, fixed_deque.hpp, fixed_doubly_linked_list.hpp, fixed_red_black_tree.hpp, enum_map.hpp'),('structural layout','all containers')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
