#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
S='inc/ptl/string.hpp';V='inc/ptl/vector.hpp';O='inc/ptl/optional.hpp';VA='inc/ptl/variant.hpp';B='inc/ptl/bitset.hpp'
A='inc/ptl/array.hpp';AR='inc/ptl/array_ref.hpp';SR='inc/ptl/string_ref.hpp';OR='inc/ptl/optional_ref.hpp';VR='inc/ptl/variant_ref.hpp';F='inc/ptl/function_ref.hpp';T='inc/ptl/tuple.hpp'

prop('C01','A string holds exactly the characters its history of operations says',
 'After any sequence of constructions, assignments, appends, concatenations, insertions, erasures, replacements, resizes, element writes, substr, clear, reserve and shrink_to_fit on ptl::string, its size and characters are exactly those of the abstract character sequence obtained by the same operations (arbitrary byte values including NUL and values above 127, any length). Iterators and references returned by the operations denote the documented position, and literals (_s) denote all their characters. The result does not depend on whether the characters are stored inline or on the heap, on the capacity, or on the kind of iterator or overload that supplied the characters.',
 ['inputs','histories'],'for every finite history of string operations, every argument satisfying the preconditions, every overload/iterator category, and every storage state (inline, heap, partially filled, shrunk)',
 'Tests run one short ASCII script per operation, mostly on strings in one storage state; whether every overload agrees on both sides of the inline/heap boundary and of every capacity boundary is a quantification over histories.',
 [S],[('inline/heap storage','string.hpp storage_t'),('in-place vs. reallocating branches of append/assign/insert/replace','string.hpp append/assign/insert/replace'),('resize/reserve','string.hpp reserve/resize')],
 ['data()/size() after every call','returned iterators/references'],
 [dict(name='data',meaning='the character sequence of the string',where='string.hpp storage_t')])

prop('C02','Arguments that refer into the container itself behave as if copied first',
 'When the argument of assign, append, insert, replace, push_back, emplace, resize or an assignment operator of ptl::string or ptl::vector denotes (part of) the very container being modified - a character range, view, element reference, or iterators into it, forward or reversed - the result is the same as if the argument had been copied before the call. This holds whether or not the operation has to reallocate or change between inline and heap storage.',
 ['inputs','histories'],'for every container state (size, capacity, storage mode), every target position and every sub-range or element of the container used as argument',
 'No existing test passes an argument that aliases the target; the failing combinations depend on the relation of the slice to the insertion point and to the remaining capacity.',
 [S,V],[('append source behind the old contents, then rotate','string.hpp assign/insert/replace (ForwardIterator), vector.hpp assign_impl/insert_impl'),('fill new storage before moving the old elements','string.hpp and vector.hpp reallocating branches')],
 ['contents after each aliasing call'])

prop('C03','A string is NUL-terminated, within capacity, and reallocates only when needed',
 'At every point between operations data()[size()] is NUL and c_str() equals data(), size() never exceeds capacity(), and a string whose operations never needed more than the inline capacity (22 characters on 64-bit) owns no heap memory. reserve(n) makes capacity() at least n (and does nothing if it already is), after which operations that add characters (push_back, append, insert, resize) keep the buffer - and all pointers before the modified position - unchanged as long as the resulting size fits the capacity; erase, pop_back, clear and shrinking resize never reallocate. shrink_to_fit never changes the contents and returns a string that fits to inline storage.',
 ['histories','inputs'],'for every history of operations and every size relative to the inline and heap capacity',
 'The tests look at the terminator of three strings and at capacity in one push_back loop.',
 [S],[('set_size writes the terminator','string.hpp storage_t::set_size'),('reserve','string.hpp reserve'),('shrink_to_fit','string.hpp storage_t::shrink_to_fit')],
 ['data(), c_str(), capacity(), allocator calls'],
 [dict(name='cap',meaning='capacity of current storage',where='string.hpp storage_t'),dict(name='dealloc',meaning='null iff inline',where='string.hpp storage_t')])

prop('C04','A vector holds exactly the elements its history of operations says',
 'After any sequence of constructions, assignments, insertions, emplacements, push_back/pop_back, erasures, resizes, element writes, clear, reserve and shrink_to_fit on ptl::vector, its size and elements are exactly those of the abstract sequence obtained by the same operations, whatever the element type (trivial or not, copy may throw, self-move may clear), overload or iterator category. Iterators and references returned by the operations denote the documented position, and value-initialising operations produce value-initialised elements.',
 ['inputs','histories'],'for every finite history of vector operations, every valid argument, every overload/iterator category, several element types, and every size/capacity relation',
 'Tests use ptl::vector<int> and one short script per operation; the interaction of size, capacity, position and count with each branch is not sampled, nor are non-trivial element types.',
 [V],[('insert_impl/assign_impl/resize_impl','vector.hpp'),('erase','vector.hpp erase')],['data()/size() after every call','returned iterators/references'],
 [dict(name='data',meaning='the element sequence',where='vector.hpp storage_t')])

prop('C05','A vector keeps its buffer while capacity suffices and keeps it well-aligned',
 'size() never exceeds capacity(), data() is always suitably aligned for the element type, and reserve(n) makes capacity() at least n without changing the elements (and does nothing if it already is). As long as the resulting size fits the capacity, push_back, emplace, insert and resize neither reallocate nor lower the capacity, so pointers to elements before the modified position stay valid; erase, pop_back, clear and shrinking resize never reallocate, and appending elements one at a time reallocates only logarithmically often. shrink_to_fit keeps the elements and never raises the capacity, except that it may settle at the minimum allocation.',
 ['histories','inputs','configurations'],'for every history of operations, every size/capacity relation and element types of various size and alignment',
 'No test observes capacity or addresses of a vector, or uses an over-aligned element type.',
 [V],[('storage_t allocation','vector.hpp storage_t(std::size_t)'),('insert_impl/resize_impl in-place branch','vector.hpp')],['capacity(), data(), allocator calls'],
 [dict(name='cap',meaning='capacity',where='vector.hpp storage_t')])

prop('C06','Elements are constructed once, destroyed once, and never used while dead',
 'For ptl::vector, ptl::optional and ptl::variant, every element object is constructed only in storage that holds no live object, is read, assigned, moved or destroyed only while alive, and is destroyed exactly once. Between operations the live objects are exactly the elements the containers report, and none remain after the containers are destroyed.',
 ['histories','inputs'],'for every history of operations on several objects, including self-assignment, self-swap, emptied, moved-from and re-filled objects, and zero-length operations',
 'The tests use element types without observable lifetime; leaks, double destruction and assignments to raw memory pass unnoticed.',
 [V,O,VA],[('destroy_n/uninitialized_* pairing','vector.hpp'),('initialized flag','optional.hpp'),('destroy/assign by type index','variant.hpp')],['constructor/destructor/assignment calls of an instrumented element type'],
 [dict(name='slot',meaning='raw or live per element address',where='instrumented element type')])

prop('C07','A failing operation changes nothing and leaks nothing',
 'If an operation on ptl::string, ptl::vector, ptl::optional or ptl::variant fails because memory allocation fails, an element copy/construction throws, or a user-supplied iterator throws, the error reaches the caller as an exception and every involved object keeps its previous value, stays fully usable (a string stays NUL-terminated), and no memory or element leaks. Operations declared non-throwing (move, swap, clear, erase, pop_back, reset, shrink_to_fit, destruction) complete even when no memory can be allocated.',
 ['fault_sequences','histories'],'for every operation, every container state, and every position of the failure (n-th allocation, n-th element copy, n-th iterator dereference) inside it',
 'No test injects a failure.',
 [S,V,O,VA],[('build new storage, then commit by noexcept move','vector.hpp/string.hpp reallocating branches'),('construct behind the end, then rotate','vector.hpp insert_impl/assign_impl'),('temporary before destroy','variant.hpp operator=/emplace')],['exception type, contents, live element count, live blocks after each failing call'],None,None)

prop('C08','Requests beyond max_size are rejected without touching the object',
 'Asking ptl::string or ptl::vector for a size that exceeds max_size() - including counts so large that the resulting size would wrap around - through construction, reserve, resize, assign, append, insert or replace throws std::length_error (or std::bad_alloc) and leaves the object unchanged. No such request ever produces an object or writes memory.',
 ['inputs'],'for every object state and every count up to the maximum of size_type, in every sizing operation',
 'No test passes a huge count; the arithmetic only goes wrong near the top of the 64-bit range.',
 [S,V],[('max_size checks','string.hpp reserve, vector.hpp storage_t(std::size_t)')],['exception type and contents after call'])

prop('C09','Heap buffers are released exactly once, by the module that allocated them',
 'When ptl::string and ptl::vector objects are created, modified, moved, swapped, assigned and destroyed by different separately compiled modules (each with its own allocator and compiler) in any order, every heap buffer is released exactly once and only through the module that allocated it. At any point each live buffer belongs to exactly one object and each non-inline object owns exactly one live buffer.',
 ['histories','configurations'],'for every history of operations over several objects and every assignment of operations to modules',
 'All tests live in one binary, where every deallocation function is interchangeable, so losing or mixing up the recorded deallocator is invisible.',
 [S,V],[('deallocator stored with the buffer','string.hpp/vector.hpp storage_t::dealloc'),('move/swap carry the deallocator along','string.hpp/vector.hpp storage_t')],['alloc/free calls per module'],
 [dict(name='dealloc',meaning='function of the allocating module',where='storage_t')])

prop('C10','The binary representation of every type is the frozen one',
 'On LP64 targets the size and byte image of every PTL object is a fixed function of its value: string = deallocator word + either (size byte, NUL-terminated inline buffer of 23) or (pointer, capacity, size); vector = deallocator, pointer, capacity, size; optional = value then flag byte; variant = payload then index byte, both packed; bitset = bit i in bit i%8 of byte i/8 with zero padding; array = contiguous elements; array_ref and string_ref = first, last; optional_ref = pointer; variant_ref = pointer, index; function_ref = target, dispatcher. An object written by code that only knows this layout is read correctly by the library, and vice versa, for every value and at every point of every history, and independently of the compiler.',
 ['inputs','histories','configurations'],'for every value/state of every type, after every history, for each compiler, in both directions (library writes / foreign code reads and the reverse)',
 'Tests check sizeof for a few instantiations; they use the same headers for writing and reading, so a changed layout stays self-consistent.',
 [S,V,O,VA,B,A,AR,SR,OR,VR,F],[('member order and packing','all headers'),('sso/heap union','string.hpp storage_t'),('pragma pack','optional.hpp, variant.hpp')],['raw bytes of objects','a peer written in C without the headers'])

prop('C11','Copy, move and swap have value semantics for every owning type',
 'For string, vector, array, optional, variant, bitset and tuple: a copy equals the original and later changes to either leave the other unchanged; a move transfers the value and leaves the source in a valid, assignable, destructible state (an engaged optional or a variant keeps its alternative); member and friend swap exchange the two values exactly for every pair of states. Self-assignment (copy and move) and self-swap leave the value unchanged. An assignment from an object that only the old value (or the old elements) of the target keeps alive, as when a node of a tree is replaced by its own child, behaves as if the source had been taken out first: the target ends up with the value of the source, and everything nothing refers to any more is destroyed exactly once.',
 ['inputs','histories'],'for every pair of states of the two objects (inline/heap, empty/engaged, equal/different alternatives or sizes), every way of copying/moving/swapping, and every later modification',
 'Tests check one or two state pairs per type and never modify a copy or moved-from object afterwards.',
 [S,V,A,O,VA,B,T],[('storage_t copy/move/swap','string.hpp, vector.hpp'),('engaged/disengaged swap','optional.hpp swap'),('same/different alternative swap','variant.hpp swap')],['both objects after each call and after later modification'])

prop('C12','An optional is exactly engaged-with-value or empty, as its history says',
 'After any history of construction, (value, optional, nullopt) assignment, emplace, reset, swap and move, has_value()/bool tell whether the optional holds a value and *, ->, value() and value_or give exactly that value (value_or giving the default otherwise). value() on an empty optional throws bad_optional_access; assigning an optional its own value or itself keeps it.',
 ['histories','inputs'],'for every history over several optionals of trivial and non-trivial types',
 'Tests exercise fixed short scripts on optional<int>/<float>; state confusion needs particular sequences.',
 [O],[('initialized flag','optional.hpp')],['has_value, value, value_or, exceptions'])

prop('C13','A variant always holds exactly one alternative: the last one successfully stored',
 'After any history of construction (default, value, in_place by type or index), assignment, emplace by type or index, swap, copy and move, holds/get_if/get report exactly the alternative last stored, with its value, and every other alternative is reported absent (get throws bad_variant_access, get_if is null). A variant is never valueless, also after a failed assignment or emplace, and every alternative can be emplaced whatever the other alternatives are.',
 ['histories','inputs','configurations'],'for every history, every pair of old and new alternatives (including the same one), trivial/throwing alternatives, and lists of up to 254 alternatives',
 'Tests use two trivial alternatives and a handful of transitions.',
 [VA],[('type index + destroy/construct','variant.hpp')],['holds/get/get_if for every alternative'])

prop('C14','visit calls the right visitor exactly once with the live alternative',
 'visit on ptl::variant and ptl::variant_ref invokes exactly one visitor call, passing a reference to the very object currently held or referenced, with the constness and value category of the visited expression, and returns that call\'s result (or propagates its exception). Modifications made through the reference are visible afterwards; a visitation never alters which alternative is active.',
 ['inputs','histories','configurations'],'for every active alternative among few or many, single and combined visitors, const/non-const, lvalue/rvalue expressions',
 'Tests check two alternatives and only that no wrong lambda asserts; they do not check address, count, result or many alternatives.',
 [VA,VR],[('dispatch table indexed by type','variant.hpp internal_variant::visit, variant_ref.hpp internal_variant_ref::visit')],['calls received by recording visitors'])

prop('C15','A bitset of N bits behaves as a set of indices below N, for every N',
 'For every N (including 0, multiples and non-multiples of 8, and N beyond 64) and every history of set, reset, flip, &=, |=, ^=, ~, <<=, >>= (by any count), reference writes/swaps and construction from an integer, test/[]/at report exactly the abstract set of indices below N. count, all, any, none, ==, hash and operator bool depend on that set only - equal sets compare and hash equal however they were reached.',
 ['inputs','histories','configurations'],'for every N, every history and every shift count up to the maximum of size_type',
 'Tests use N=10 (and 3,4,5) with a few fixed values; byte-boundary, padding and large-shift behaviour is not sampled.',
 [B],[('trailing mask','bitset.hpp clear_trailing_bits'),('per-byte operations','bitset.hpp')],['test(i) for all i, count/all/any/none, ==, hash'],
 [dict(name='values',meaning='packed bits, padding zero',where='bitset.hpp')])

prop('C16','Stream output and input of bitsets and strings follow the standard protocol',
 'Writing a bitset emits its N bits, most significant first; for N > 0 reading consumes, after leading whitespace, at most N characters 0/1, sets the value to those read (interpreted as a binary number), leaves the first other character unread, and sets failbit exactly if no such character was found, in which case the value is unchanged. Output followed by input restores the value, also at the end of the stream; writing a string or string_ref emits exactly its characters. Field width, fill and adjustment apply to an output as a whole, and a stream in an error state is neither written nor read.',
 ['inputs'],'for every N, every bit pattern, every input text (short, exact, long, whitespace, junk, end of file) and sequences of reads on one stream',
 'Tests read back two exact-length texts; short input, end of file and junk are never tried.',
 [B,S,SR],[('operator<< / operator>>','bitset.hpp, string.hpp, string_ref.hpp')],['characters written/consumed, stream state, value'])

prop('C17','Comparisons and hashes agree with the abstract values',
 'All relational operators of string, string_ref, vector, array, tuple, optional (against optional, nullopt and values) and variant return exactly the ordering of the abstract values: lexicographic for sequences (characters compared as unsigned), component-wise for tuple, empty before engaged for optional, alternative index before value for variant. For each pair exactly one of <, ==, > holds on totally ordered element types, <=, >=, != are consistent with them, and equal values (also a string and a string_ref of the same text) have equal hashes.',
 ['inputs'],'for every pair of values (prefixes, embedded NUL, bytes above 127, empty, different lengths/alternatives/states) and every operator overload',
 'Tests evaluate a few operators on a few pairs; most of the roughly 80 operator overloads are never called.',
 [S,SR,V,A,T,O,VA],[('operator overloads','all headers')],['results of every operator'])

prop('C18','array_ref and string_ref denote exactly the range they were made from',
 'A view constructed from pointers, pointer+count, a container, a literal (_sr, all characters) or another view denotes exactly that contiguous range: data(), size(), element access and iteration refer to the original elements (no copies), and writes through array_ref are visible in the source. first, last, subrange, substr, remove_prefix and remove_suffix denote exactly the requested sub-range for every valid offset and count, and views only bind to ranges whose elements are of the referenced type.',
 ['inputs','histories'],'for every range, every chain of sub-view operations with valid arguments, and every source kind',
 'Tests take a couple of sub-views of one array.',
 [AR,SR],[('first_/last_ pointer pair','array_ref.hpp, string_ref.hpp')],['addresses, sizes and contents of views'])

prop('C19','optional_ref and variant_ref denote the original object; assignment rebinds',
 'optional_ref is empty exactly when made from nullopt, nothing, or an empty optional-like, and otherwise gives access to the original object itself; variant_ref always refers to the original object with the alternative matching its constness and type. Reads and writes go to the referenced object, copies refer to the same object, assignment rebinds without touching the old or new target, and value()/get of an absent object throws.',
 ['histories','inputs'],'for every sequence of binding, copying, rebinding, and writing through references, over all alternatives including const ones',
 'Tests bind a few references once.',
 [OR,VR],[('stored pointer (+ index)','optional_ref.hpp, variant_ref.hpp')],['addresses and values seen through references'])

prop('C20','Calling a function_ref is calling its current target',
 'A call through function_ref invokes the currently bound function or functor exactly once, on the original object (no copy), with exactly the given arguments (references staying references, moved arguments arriving intact), and returns its result, including results that are references; exceptions of a throwing signature propagate. A const signature calls the const overload, copying shares the target, and assignment rebinds to the source\'s target.',
 ['inputs','histories','configurations'],'for every kind of target (function, function pointer, functor, const functor), signature (const/noexcept, value/reference/void result, argument kinds) and history of copies and rebinding',
 'Tests call eight nullary int functions once; arguments, reference results, overloads and rebinding are untouched.',
 [F],[('storage + dispatch pointer','function_ref.hpp')],['calls received by recording targets, returned values/addresses'])

prop('C21','Checked access throws exactly when the element is absent',
 'at on string, string_ref, vector, array, array_ref and bitset, and test/set/reset/flip of a bitset, throw std::out_of_range exactly when the index is not below size() (for every index value up to the maximum), value() of optional/optional_ref throws bad_optional_access exactly when empty, and get of variant/variant_ref throws bad_variant_access exactly when another alternative is active. Otherwise they return a reference to precisely the designated element; a throwing access changes nothing.',
 ['inputs'],'for every object state and every index/alternative, const and non-const, lvalue and rvalue access',
 'Tests never call at out of range and check value() on one type.',
 [S,SR,V,A,AR,B,O,OR,VA,VR],[('bounds checks','all headers')],['exception type or referenced element'])

prop('C22','Iterators behave as positions in the container',
 'For string, string_ref, vector, array and array_ref, iterators obey the random-access laws: begin()+i denotes element i, end()-begin() equals size(), every combination of ++, --, +=, -=, +, - and [] moves by exactly that many positions, comparisons agree with positions, and const/reverse/const-reverse iterators (and conversions to const) visit the same elements in the corresponding order. Writing through a mutable iterator writes that element.',
 ['inputs','histories'],'for every container, every walk of iterator operations staying inside the range, and every pair of positions',
 'Tests use iterators only incidentally; reverse iterators, decrement, comparison and conversion are never checked.',
 [S,SR,V,A,AR],[('contiguous_iterator','string.hpp, vector.hpp, array.hpp, array_ref.hpp, string_ref.hpp')],['dereferenced elements, differences and comparisons'])

prop('C23','array and tuple are fixed-size aggregates of independent elements',
 'An array<T,N> (including N=0) or tuple constructed from values holds exactly those values in order; fill, element writes through [], at, front, back, data, iterators, get<I> and structured bindings change exactly the designated elements, and get<I> refers to element I with the value category of its argument. size, empty and tuple_size equal the number of elements.',
 ['inputs','histories'],'for every N, every history of element writes through any access path, and every index',
 'Tests check a few constants; that a write through one path changes exactly one element seen through all others is not examined.',
 [A,T],[('values[]','array.hpp'),('recursive storage','tuple.hpp storage_t')],['all elements through all access paths'])

prop('C24','Distinct objects are independent: operations share no hidden state',
 'An operation on one PTL object neither reads nor writes any state other than the objects it is given: every other object, and every static variable, is unchanged. Hence operations on distinct objects may run concurrently in different threads, and const operations on a shared object may run concurrently, each thread observing exactly its sequential results.',
 ['schedules','histories'],'for every interleaving of threads working on distinct objects, or only reading shared ones, and every operation',
 'Tests are single-threaded; hidden static buffers or caches give correct results without concurrency.',
 [S,V,A,O,VA,B,AR,SR,F],[('no static or mutable state in any header','all headers')],['per-thread results, static data of each module, data-race reports'])

prop('C25','Every public header can be included on its own',
 'Each header in inc/ptl compiles as the first and only include of a translation unit with a conforming C++17 compiler.',
 ['configurations'],'for every header and every supported compiler',
 'The tests include Catch2 and the standard library first, which hides missing includes.',
 [S,V,A,O,VA,B,AR,SR,OR,VR,F,T],[('#include lists','all headers')],['compilation result'])
import os
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P:
    jsonschema.validate(p,sch)
print(len(P))
