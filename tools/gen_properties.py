#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing)."""
import json
CB="src/circular_buffer/circular.rs"; CI="src/circular_buffer/iter.rs"
CO="src/counter/counter.rs"; FC="src/counter/fast_counter.rs"
DS="src/disjoint_set/disjoint_set.rs"; FD="src/disjoint_set/fast_disjoint_set.rs"
IB="src/interval/bounds.rs"; II="src/interval/interval.rs"; IC="src/interval/interval_cmp.rs"; IM="src/interval/interval_math.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
ring=[("buffer/start/end","ring storage with one spare slot; occupied region is start..end modulo storage length",CB)]

p("B01","Circular buffer is a bounded double-ended queue that overwrites the oldest end",
 "After any sequence of operations a circular buffer of capacity c holds exactly what a double-ended queue bounded to c elements would hold, in the same order: pushing at the back of a full buffer discards the front element, pushing at the front of a full buffer discards the back element, a buffer of capacity zero discards everything pushed, and pops and drains hand out elements in order from the end they name. The reported length, emptiness, fullness and capacity always agree with that content, length never exceeds capacity, and only resizing changes the capacity. A capacity too large to exist is refused by a panic, which leaves an existing buffer as it was.",
 ["inputs","histories"],"all operation sequences, capacities (including 0 and 1), wrap-around positions and element types",
 "Unit tests run a handful of push/pop scripts on buffers of capacity 2-7, and never drive most (position, length, operation) combinations, mixed push_front/push_back histories or capacity zero.",
 [CB,CI],[("push_back/push_front/pop_*",CB),("incr_*/decr_* index arithmetic",CB),("Drain/IntoIter",CI)],ring,
 ["len/is_empty/is_full/capacity and iter() after every operation","values returned by pop, drain, into_iter"])
p("B02","Every element given to a circular buffer is handed back or dropped exactly once",
 "When no user code panics, each element moved into a circular buffer ends up either returned to the caller or dropped, exactly once, and never both. An element that is overwritten, discarded by a zero-capacity push, cut off by a shrinking resize, cleared, or still inside when the buffer or its owning iterator goes away is dropped by the end of that operation. Elements that remain in the buffer are never dropped.",
 ["inputs","histories"],"all operation histories, capacities, wrap positions, and points at which the buffer or a partially consumed iterator is dropped",
 "One test counts drops over one script of six operations; leaks and double drops in other operations, wrapped states, partial iterators or clones are invisible to it.",
 [CB,CI],[("Drop::drop and clear",CB),("pop_at/push_at moving values in and out of slots",CB),("resize via drain().skip()",CB),("Clone",CB)],ring,
 ["a ledger of construct/drop events of instrumented elements, compared with a model after every operation"])
p("B03","Circular buffer operations are free of undefined behaviour for any element type",
 "No sequence of safe calls on a circular buffer, for any element type (including types with invalid bit patterns, references, heap-owning, over-aligned, large and zero-sized types), reads or clones an unoccupied slot, goes out of bounds, forms an invalid or aliased reference, or otherwise causes undefined behaviour or a crash.",
 ["inputs","histories","programs"],"all operation histories over all element types",
 "Tests use i32 and one Rc-holding struct, run natively, and cannot see undefined behaviour that happens to produce the expected value.",
 [CB,CI],[("MaybeUninit slots and transmutes to [T]",CB),("Index/IndexMut/slices/linearize unsafe blocks",CB)],ring,
 ["Miri, AddressSanitizer and crash signals over the workload"])
p("B04","All views of a circular buffer show one and the same sequence",
 "At any moment forward iteration, backward iteration, indexing, first/last, the two slices put one after another, the mutable counterparts of all these, the linearized slice, draining and consuming iteration all expose exactly the same elements in the same order, and out-of-range positions are never exposed (first/last give nothing on an empty buffer, an index beyond the length panics). A write made through any mutable view changes exactly the addressed element, and every other view sees it.",
 ["inputs","histories"],"all reachable (capacity, position, length) states and all pairs of views",
 "Tests look at each view in one or two states; agreement between views in wrapped, full, empty and just-wrapped states is not examined.",
 [CB,CI],[("slices/slices_mut/iter/iter_mut",CB),("internal_index",CB),("linearize",CB)],ring,
 ["every read view compared with the model and with each other; writes through every mutable view read back through every other"])
p("B05","Resizing and bulk transfers keep the newest elements, in order",
 "Resizing to capacity n keeps the newest min(length, n) elements in their order and makes the capacity n; appending or extending is equivalent to pushing every incoming element at the back one by one, and appending leaves the source empty with its capacity unchanged. Building a buffer from a vector or an iterator yields exactly those elements in order with a capacity equal to their number, and a drain or consuming iterator that is abandoned early has removed exactly what it yielded.",
 ["inputs","histories"],"all source/target states, capacities, sizes and iterator kinds (owned, by reference, inexact size hints)",
 "Tests resize one unwrapped buffer twice and append once with room to spare.",
 [CB,CI],[("resize",CB),("append/Extend/FromIterator/From<Vec>",CB),("Drain/IntoIter",CI)],ring,["content, capacity and length of both buffers after each bulk operation"])
p("B06","Swap, reverse and linearize rearrange exactly as asked",
 "Swapping positions a and b exchanges exactly those two elements, reversing reverses the whole sequence, and linearizing leaves the sequence unchanged while making it one contiguous slice; none of them changes length or capacity or loses an element. Swapping with a position at or beyond the length panics and leaves the buffer as it was.",
 ["inputs","histories"],"all states, all index pairs in and out of range",
 "Tests perform each rearrangement on one buffer of three elements, and never out of range.",
 [CB],[("swap/reverse/linearize",CB),("internal_index bounds check",CB)],ring,["content before and after each rearrangement"])
p("B07","Comparing and cloning circular buffers depends on their contents only",
 "Two circular buffers are equal exactly when they hold equal elements in the same order, and their ordering is the lexicographic ordering of their contents, whatever their capacities, internal positions or histories; the same holds for comparison with a slice, and incomparable elements give no ordering. A clone has the same contents and capacity as the original, and afterwards changing or dropping either never affects the other.",
 ["inputs","histories"],"all pairs of buffer states over total and partial orders",
 "Tests compare unwrapped or similarly shaped buffers of integers, and clone is not tested at all.",
 [CB],[("PartialEq/PartialOrd/Ord via iter()",CB),("Clone",CB)],ring,["comparison results against the same comparison on plain sequences; both buffers after mutations of a clone"])
p("B08","A circular buffer does not allocate memory while being used",
 "Once a circular buffer exists, pushing, popping, appending, extending, draining, indexing, iterating, comparing, swapping, reversing, linearizing and clearing never allocate or free heap memory of their own; only creating, cloning, resizing and destroying a buffer may.",
 ["inputs","histories"],"all histories of non-resizing operations in all states",
 "No test observes the allocator.",
 [CB,CI],[("fixed boxed slice storage",CB)],ring,["an instrumented global allocator counting calls during each operation"])
p("B09","A panic in element code leaves a circular buffer valid",
 "If the destructor, clone or comparison of an element, or an iterator feeding the buffer, panics during an operation, the buffer afterwards is still usable: no element is ever dropped twice or seen after being dropped, and everything it exposes was put into it, in the original order. A panicking clone or comparison leaves the buffers involved unchanged, and a panicking source iterator leaves exactly the effect of the elements it had yielded.",
 ["fault_sequences","histories"],"all panic points in all operations, followed by arbitrary further operations",
 "No test makes element code panic.",
 [CB,CI],[("state is updated before user code runs",CB)],ring,["instrumented elements that panic at a chosen call; ledger and contents after catching the panic and after further operations"])
p("B10","Circular buffer pushes, pops and element accesses take constant time",
 "The work done by pushing, popping, indexing, first/last and size queries on a circular buffer does not grow with its capacity, its length or the position of its contents.",
 ["inputs","histories"],"all capacities, lengths and wrap positions",
 "Tests use tiny buffers and observe results only, not work.",
 [CB],[("index arithmetic instead of moving elements",CB)],ring,["executed machine instructions per operation at very different sizes"])
p("B11","Whole-buffer operations cost no more per element in a large buffer",
 "Iterating over, indexing through, draining, consuming, clearing, dropping, comparing, appending, extending or overwriting a circular buffer takes work proportional to the number of elements involved, however large its capacity; linearizing, reversing, cloning, resizing and building a buffer take work proportional to its capacity at most. The work per element does not grow with the size of the buffer or the position of its contents.",
 ["inputs"],"all capacities, fill levels, wrap positions and element sizes",
 "Tests use tiny buffers and observe results only, not work.",
 [CB,CI],[("slices and chained slice iterators",CB),("drain/pop_front",CI),("linearize/reverse/resize",CB)],ring,["executed machine instructions per element of whole-buffer operations at very different sizes"])

cnt=[("counter","map from element to its count",CO)]
p("C01","A counter reports exactly how often each element was added",
 "After any sequence of pushes, extensions and construction from iterators, a counter holds for each element exactly the number of times it was added, elements never added are absent, and its length is the number of distinct elements. This holds for every hasher (default, fast, or user supplied, even one with many collisions), every initial capacity, and both owned and borrowed iterators with any size hint.",
 ["inputs","histories"],"all element multisets, insertion orders, hashers, capacities and iterator kinds",
 "Three small tests with up to 11 elements and only the default hasher.",
 [CO,FC],[("push via entry API",CO),("Extend/FromIterator",CO)],cnt,["all entries of the counter against a reference multiset"])
p("C02","Most-common listing is the complete set of entries, most frequent first",
 "The most-common listing of a counter contains every element exactly once with its count, in non-increasing order of counts, in both the borrowing and the consuming form. The borrowing form leaves the counter unchanged.",
 ["inputs"],"all counter contents, including ties, zero and extreme counts",
 "Only the first entry of two tiny listings is looked at, in documentation examples.",
 [CO],[("most_common/into_most_common sort",CO)],cnt,["the listing against the counter's entries"])
p("C03","Adding counters sums the counts of every element",
 "The sum of two counters holds for each element the sum of its two counts, whichever form is used: by value or by reference, with + or +=, and with the same or different hashers on the two sides. A counter added by reference is not changed.",
 ["inputs"],"all pairs of counters, forms and hasher combinations, with sums below the integer limit",
 "Only one += of one element is checked, in a documentation example.",
 [CO],[("Add/AddAssign, owned and borrowed",CO)],cnt,["result and operands against reference multisets"])
p("C04","Subtracting counters removes counts and never goes below zero",
 "Subtracting a counter lowers each element's count by the other side's count; an element whose count would become zero or negative is removed entirely, and elements present only on the right side have no effect. All forms (by value or by reference, - or -=, same or different hashers) give the same result, and a counter subtracted by reference is not changed.",
 ["inputs"],"all pairs of counters, forms and hasher combinations, including smaller, equal and larger counts",
 "Subtraction is not tested at all.",
 [CO],[("Sub/SubAssign, owned and borrowed",CO)],cnt,["result and operands against reference multisets"])
p("C05","Counter conversions, iteration, cloning and comparison preserve the counts",
 "Converting a hash map into a counter (taking it over, by value or by reference, across hashers), iterating over a counter by value, by reference or mutably, and reading or modifying it through its map interface all show the same element-count pairs, each exactly once. A clone has equal counts and is independent, and counters with comparable hashers are equal exactly when their counts are. A counter created with (or reserved for) a capacity takes that many distinct elements without reallocating, and one of capacity zero does not allocate.",
 ["inputs","histories"],"all map contents, hashers, conversion paths and mutation histories",
 "One documentation example converts a two-entry map and checks its length.",
 [CO],[("from_hashmap/From<HashMap>/Deref/IntoIterator",CO),("with_capacity*",CO),("derived Clone/PartialEq",CO)],cnt,["pairs seen through every path; allocator calls while filling to capacity"])
p("C06","A panic while handling one element does not corrupt a counter",
 "If hashing or comparing the element being added panics, or the iterator feeding a counter panics, then all other counts stay exact: the counter reflects precisely the additions completed before the panic, and it remains fully usable.",
 ["fault_sequences","histories"],"all panic points in element hashing, equality and source iterators, followed by arbitrary operations",
 "No test makes element code panic.",
 [CO],[("entry API before modification",CO)],cnt,["counts after catching the panic against the model"])
p("C07","Counter operations cost no more per element in a large counter",
 "Adding an element to a counter, asking for a count and asking for the size take practically constant work however many elements it holds. Extending, converting, iterating, comparing, cloning, adding and subtracting counters take work proportional to the number of elements of the counters involved, and the most-common listing at most that times the logarithm of their number.",
 ["inputs"],"all counter sizes and distributions of counts; sampled at sizes far apart",
 "Tests use counters of a few elements and observe results only, not work.",
 [CO],[("entry API",CO),("Add/Sub loops over the right operand",CO),("sort of the listing",CO)],cnt,["executed machine instructions per element at very different sizes"])

dsu=[("ids","map from element to numeric id",DS),("data_by_id","parent and rank of each id",DS)]
p("D01","Disjoint-set membership queries equal the equivalence closure of the unions made",
 "Two elements are reported to be in the same subset exactly when both were added and a chain of union calls connects them (every added element is with itself). The answer does not depend on the order or direction of unions, on earlier queries or iterations, on the hasher, or on re-adding existing elements.",
 ["inputs","histories"],"all interleavings of add, union, query, iterate, extend and clear over all element sets and hashers",
 "One test performs three unions over four elements.",
 [DS,FD],[("union by rank",DS),("find with path compression",DS)],dsu,["in_union of element pairs against a reference partition"])
p("D02","Disjoint-set contents are exactly the elements added",
 "A disjoint set contains exactly the elements added since creation or the last clear, by any means (adding, union of new elements, construction, extension); its length is their number, and it is empty exactly when there are none. Adding an existing element changes nothing, not even its subset; queries never add elements and are false for unknown ones; after clear everything is forgotten and the structure behaves like new.",
 ["inputs","histories"],"all histories including duplicates, self-unions, queries of unknown elements, reserve and clear followed by reuse",
 "Duplicates, clear, reserve, is_empty, self-union and reuse are untested.",
 [DS],[("make_or_get_set",DS),("clear/reserve/len",DS)],dsu,["contains/len/is_empty and in_union against the model after each operation"])
p("D03","Iterating a disjoint set yields its partition",
 "Iterating over a disjoint set yields non-empty groups in which every added element appears exactly once, and two elements share a group exactly when they are in the same subset. Iterating does not change the contents or the partition.",
 ["inputs","histories"],"all reachable partitions and hashers, at any point of a history",
 "Iteration is never checked (one example prints it).",
 [DS],[("build_sets/SetIter",DS)],dsu,["groups against the model partition"])
p("D04","Disjoint-set operations stay cheap whatever the order of unions",
 "However unions are ordered, the work per operation on a disjoint set is practically constant: for long random, chained, reversed, star-shaped or tournament-shaped union sequences it does not grow noticeably with the number of elements, and asking again about the same elements costs no more than in a tiny set. Even a million elements joined in the most unfavourable order are queried, joined and iterated within a small thread stack.",
 ["inputs","histories"],"all union orders and sizes; sampled up to about a million elements",
 "Tests use at most six elements; degenerate trees would give correct answers.",
 [DS],[("union by rank",DS),("path compression in find",DS)],dsu,["executed machine instructions per operation at very different sizes; survival on a small stack"])
p("D05","Disjoint-set construction paths are equivalent and clones are independent",
 "A disjoint set created empty, with a capacity, with a hasher, from owned or borrowed elements, or by extension behaves the same given the same elements, each element starting in its own subset. A clone has the same elements and partition, and later changes to either do not affect the other. With a capacity of n it takes n distinct elements and any unions among them without reallocating, and with capacity zero it does not allocate.",
 ["inputs","histories"],"all element sequences, iterator kinds and size hints, capacities, hashers; all histories after cloning",
 "Tests build one three-element set from an array; clone, capacity and hasher constructors are untested.",
 [DS,FD],[("constructors, FromIterator, Extend, Clone",DS)],dsu,["partition of each construction; both sides after cloning; allocator calls while filling to capacity"])
p("D06","A panic while handling one element does not corrupt a disjoint set",
 "If hashing or comparing an element passed to a disjoint-set operation panics, or an iterator feeding it panics, the existing elements and their partition are unchanged (elements completely added before the panic may be present), and later operations on any element give correct answers without panicking.",
 ["fault_sequences","histories"],"all panic points in hashing, equality and source iterators, followed by arbitrary operations",
 "No test makes element code panic.",
 [DS],[("id allocation and data push order in make_or_get_set",DS)],dsu,["full partition after catching the panic and after further operations"])

iv=[("imp","absent when empty, else lower and upper bound",II)]
dense="Intervals are sets of points of a densely ordered line: "
p("I01","Interval construction accepts exactly the valid bounds and reports them back",
 "Every constructor accepts its bounds exactly when they describe a non-empty set (lower below upper, or equal with both ends closed) and panics otherwise. The constructed interval reports exactly the bound values and open/closed ends that were given, through every accessor and when taken apart again; emptiness and being a single value are reported truthfully, and the empty interval has no bounds.",
 ["inputs"],"all value pairs, end kinds, constructors and ordered value types",
 "Tests construct a few intervals of small integers; mixed ends on equal values are only partly covered.",
 [II,IB],[("create_checked",II),("accessors, into_tuple, into_bounds",II)],iv,["panic or accessor results against the given bounds"])
p("I02","An interval contains exactly the values between its bounds",
 "A value is contained in an interval exactly when it lies strictly between the bounds or equals a bound whose end is closed. The empty interval contains no value.",
 ["inputs"],"all intervals and values of any ordered type",
 "Tests ask about five values of one interval; the empty interval is not covered.",
 [II,IC],[("contains_val through value comparison",II)],iv,["contains_val against direct evaluation"])
p("I03","An interval contains another exactly when it is a superset",
 "One interval contains another exactly when every point of the second is a point of the first, on a densely ordered line. So every interval contains itself and the empty interval, the empty interval contains nothing else, and containment both ways means equality.",
 ["inputs"],"all pairs of intervals, including shared bounds with all open/closed combinations",
 "Tests use one outer interval with six inner ones.",
 [II,IB],[("contains_interval through bound order",II)],iv,["contains_interval against point sets"])
p("I04","Intersection is the exact set intersection, and intersects predicts it",
 "The intersection of two intervals contains exactly the points common to both, on a densely ordered line, and is empty when there are none; the in-place and the consuming form agree. Two intervals are reported to intersect exactly when their intersection is not empty; an empty interval intersects nothing.",
 ["inputs"],"all pairs of intervals, including touching and nested ones with all open/closed combinations",
 "A few chained examples; touching intervals are not intersected and intersects is only in one example.",
 [II,IC],[("intersects/intersection/into_intersection",II)],iv,["result bounds against point sets; both forms and both argument orders"])
p("I05","Merging succeeds exactly when the union is an interval, and yields that union",
 "Two intervals can be merged exactly when no gap lies between them (they overlap, or touch at a value that at least one of them includes, or one is empty), and then merging gives exactly their union. Otherwise merging fails and hands back both originals unchanged (the in-place form leaves the target unchanged and returns the argument); the in-place and consuming forms and the prediction always agree.",
 ["inputs"],"all pairs of intervals, including touching ones with all open/closed combinations",
 "About ten pairs; failure values and argument order are barely covered.",
 [II,IB],[("can_be_merged/merge/into_merged",II),("is_separated_from",IB)],iv,["result, error values and target against point sets"])
p("I06","Span is the smallest interval covering both operands",
 "The span of two intervals is the smallest interval that contains both, with each end open or closed exactly as the outermost operand there (closed if either touches it closed), and spanning with the empty interval changes nothing. The in-place and consuming forms agree, in either argument order.",
 ["inputs"],"all pairs of intervals",
 "Four pairs per form.",
 [II],[("span/into_span",II)],iv,["result bounds against direct computation"])
p("I07","Comparing intervals reflects the position of their points",
 "For two non-empty intervals, a < b (and b > a) holds exactly when every point of a is below every point of b, and a <= b (and b >= a) exactly when no point of a is above any point of b; with an empty operand none of the four holds. Equality is identity of the point set, the three-way comparison says less or greater exactly when < or > holds, equal for equal intervals and nothing otherwise.",
 ["inputs"],"all pairs of intervals, including empty, single-value and touching ones",
 "Tests compare one open and one closed interval with a few others; empties and three-way comparison are untested.",
 [IC,IB],[("PartialOrd/PartialEq for Interval",IC),("upper/lower bound comparison",IB)],iv,["all operators against point sets"])
p("I08","Comparing an interval with a value reflects the position of its points",
 "For a non-empty interval and a value, < and > hold exactly when every point of the interval is below or above the value, <= and >= exactly when no point is above or below it, and equality exactly when the value is the only point. With the empty interval nothing holds, and the three-way comparison agrees with the operators.",
 ["inputs"],"all intervals and values",
 "Tests cover one open and one closed interval.",
 [IC,IB],[("PartialOrd<T>/PartialEq<T> for Interval",IC)],iv,["all operators against point sets"])
p("I09","Interval arithmetic moves exactly the points of the interval",
 "Adding, subtracting, multiplying by a non-zero number, dividing by a non-zero number and negating an interval applies that operation to its bounds, each end keeping its own open/closed kind and the two ends trading places when the order is reversed; over exact arithmetic the result is precisely the image of the point set. If rounding makes the bounds coincide with an open end the result is empty, and the empty interval stays empty. The assigning forms give the same result as the plain ones.",
 ["inputs"],"all intervals and operands that do not overflow, over integer, rational and mixed-type arithmetic",
 "One interval with positive and a few negative operands; negation is untested.",
 [IM,II],[("Add/Sub/Mul/Div/Neg and assign forms",IM),("fix_after_modification",II)],iv,["result bounds against direct computation; membership of image points"])
p("I10","Intervals stay in canonical form through any history",
 "Whatever sequence of operations produced it, an interval is either empty or has its lower bound below its upper, or equal with both ends closed. Two intervals holding the same points are therefore equal, hash equally, report the same bounds and print the same, and intervals with different points differ.",
 ["inputs","histories"],"all finite histories of set, arithmetic and comparison operations that complete without panic (including multiplication by zero)",
 "Tests apply one or two operations to fresh intervals.",
 [II,IM],[("fix_after_modification",II),("derived Eq/Hash",II)],iv,["bounds, equality, hash and text after every step of random histories against a model"])
p("I11","Interval text shows exactly the bounds and their open or closed ends",
 "Displaying a non-empty interval gives its lower value, a comma and its upper value between a square bracket for a closed end and a parenthesis for an open end; the empty interval displays as the empty-set sign. Distinct intervals therefore have distinct texts whenever their values do.",
 ["inputs"],"all intervals over any displayable type",
 "Only one interval is displayed, in a documentation example.",
 [II],[("Display",II)],iv,["text against the accessors"])
p("I12","Bound comparisons agree with the half-lines they describe",
 "Lower bounds are totally ordered so that a smaller one admits more values (closed before open at the same value), and upper bounds so that a smaller one admits fewer (open before closed); equality, hashing, all operators and min/max agree with that order. Comparing a bound with a value agrees, in every operator, with the order of the bound's edge relative to the value, a closed bound being equal to its own value and an open one lying just inside the interval.",
 ["inputs"],"all pairs of bounds and all bound/value pairs",
 "Tests sample a few pairs around 5; the upper-bound-to-value closed case is tested on the wrong type.",
 [IB],[("Ord/PartialOrd/PartialEq for LowerBound and UpperBound",IB)],(),["all operators, cmp, partial_cmp, min, max, hash on all pairs"])
p("I13","Comparing an upper with a lower bound tells whether they leave room or a gap",
 "An upper bound is less than a lower bound (and the lower greater than the upper) exactly when no point of a densely ordered line can satisfy both; <= and >= between them compare their values, and at different values every comparison follows the values; a lower and an upper bound are never equal and always unequal. They are reported separated exactly when some point on the line between them satisfies neither, that is when the lower value is above the upper value, or the values are equal and both ends are open; the relation is the same asked from either side.",
 ["inputs"],"all lower/upper bound pairs",
 "Tests sample a few pairs, and only use the == operator for inequality.",
 [IB],[("cross-type PartialOrd/PartialEq",IB),("are_separated",IB)],(),["all cross operators and is_separated_from on all pairs"])
p("I14","Bounds keep their value and kind; arithmetic changes only the value",
 "A bound reports exactly the value and open/closed kind it was created with, also when taken apart. Adding to, subtracting from, multiplying or dividing a bound, in the plain and the assigning form, applies exactly that operation to the value, the operand on the right, and keeps the kind.",
 ["inputs"],"all bounds, operands and arithmetic types, including non-commutative ones and mixed operand types",
 "One bound with one or two operands per operator, on integers.",
 [IB],[("Add/Sub/Mul/Div and assign forms for bounds",IB)],(),["value and kind of results against direct evaluation"])
p("I15","A panic in value code leaves an interval valid",
 "If comparing, cloning or calculating values panics (such as an overflow or a division by zero) while an interval is changed in place (merge, intersection, span, +=, -=, *=, /=), the interval is afterwards still in canonical form: empty, or with its lower bound below its upper, or equal with both ends closed. After a merge, intersection or span every bound it has was a bound of one of the operands; after in-place arithmetic it is empty, or as it was before, or completely changed, never a mixture of old and new bounds.",
 ["fault_sequences","inputs"],"all panic points in value comparison, cloning and arithmetic of every in-place operation, over all pairs of intervals",
 "No test makes value code panic.",
 [II,IM],[("merge/intersection/span",II),("AddAssign/SubAssign/MulAssign/DivAssign",IM),("fix_after_modification",II)],iv,["bounds of the interval after catching a panic injected at every point, or caused by real overflow"])

p("X01","Collections can be shared and sent between threads safely",
 "Every collection and interval type can be sent to and shared between threads whenever its elements can (and not when they cannot). Concurrent read-only use of one instance from many threads is free of data races and gives each thread the answers of sequential use, and separate instances, used on separate threads or by the elements of one another, never influence each other.",
 ["schedules","histories","programs"],"all thread schedules of read-only sharing and of independent instances; all element types",
 "No test uses threads.",
 [CB,CO,DS,II,IB],[("no interior mutability or global state; auto traits",CB)],(),["race detectors (Miri, ThreadSanitizer) and per-thread results against sequential ones; compile-time Send/Sync probes"])
p("X02","Memory is given back, and what is held stays proportional to the contents",
 "Every byte a collection or interval allocates is given back when it is dropped, in whatever state it is and whether or not its iterators were run to their end. At any time a circular buffer holds memory proportional to its capacity, and a counter or disjoint set to the largest number of elements it ever had to have room for; repeating operations that store nothing new does not make any of them hold more and more.",
 ["inputs","histories"],"all operation histories that end without a panic or a deliberate leak, over all element types",
 "No test observes the allocator.",
 [CB,CI,CO,DS,II],[("boxed slice storage; resize, FromIterator, Clone",CB),("map entries removed by subtraction",CO),("ids and data_by_id grow together",DS)],(),["bytes allocated less bytes freed inside library calls, after every operation and after dropping everything"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
