QEX = 'The tests only run three SNAP graph samples; nothing in them builds a query operator, a storage table or an index. '

prop('R01', 'Sideways domain filters never rule out a value that can still match',
     'A domain filter (a value range plus a hashed bitmap) used to skip ahead in scans accepts every value that was recorded in it, and restricting or synchronising filters keeps exactly the values that every participating filter accepts. Asking a filter for the next candidate at or after a value returns the smallest such value it accepts, or the end marker when there is none, so a scan that seeks there skips nothing that qualifies.',
     ['inputs', 'histories'], 'every filter state, every sequence of add / restrict / synchronise steps, every 64-bit probe value',
     QEX + 'A skipped value needs particular bit patterns, wrap positions and range limits out of 2^64 values.',
     ['rdf3x/src/rts/DomainDescription.cpp', 'rdf3x/include/rts/runtime/DomainDescription.hpp'],
     [('range and bitmap intersection', 'DomainDescription.cpp sync/restrictTo'), ('bit scan with wrap-around over the bitmap', 'DomainDescription.cpp nextCandidate')],
     [('min,max', 'closed range of accepted values', 'DomainDescription.hpp'), ('filter', 'bitmap indexed by value mod 8192', 'DomainDescription.hpp')],
     ['couldQualify / nextCandidate results'],
     note='Every function of the filter is proved for all states and all 64-bit values (Skolem constant for "every other value"), loops by inductive invariants; machine arithmetic is exact 64-bit. Trusted: clang front end, VC generator, z3/cvc5.')

prop('R02', 'Merging two sorted result streams yields exactly their union, in order',
     'The sorted-union operator delivers every tuple of its left and right inputs exactly once with its multiplicity (multiplicities of equal values may be added together), nothing else, in non-decreasing order; it reports the end only when both inputs are exhausted, keeps reporting it, and delivers the same result again when restarted.',
     ['inputs', 'histories'], 'every pair of sorted inputs of any length, every interleaving of values, every call sequence first, next, next, ...',
     QEX + 'Which input runs out first, on which of the five internal states and on an equal pair or not decides the code path.',
     ['rdf3x/src/rts/MergeUnion.cpp', 'rdf3x/include/rts/operator/MergeUnion.hpp'],
     [('state machine over the two inputs', 'MergeUnion::first, MergeUnion::next')],
     [('state, leftValue, rightValue', 'which tuple was read but not yet delivered', 'MergeUnion.hpp')], ['result register and count returned by first/next'],
     note='Representation invariant preserved by first and next for arbitrary sorted inputs of any length (inputs are arbitrary instances of the operator contract). Assumes input counts below 2^63, lengths below 2^40. Trusted: clang front end, VC generator, SMT solvers.')

prop('R03', 'LIMIT and OFFSET deliver exactly the requested window of result rows',
     'Seen as the sequence of rows its input stands for (each input tuple repeated as often as its multiplicity says when duplicates are wanted, once when they are not), the limit/offset operator delivers exactly the rows numbered offset, offset+1, ..., one row per call with count 1 and the registers of that row, stopping after limit rows or at the end of the input, whichever comes first; an offset past the end or a limit of zero delivers nothing.',
     ['inputs', 'histories'], 'every input sequence and multiplicities, duplicate and no-duplicate mode, every 64-bit limit and offset, every call sequence of one evaluation',
     QEX + 'Boundary combinations of offset, limit and multiplicity have to be right for all values.',
     ['rdf3x/src/rts/DuplLimit.cpp', 'rdf3x/include/rts/operator/DuplLimit.hpp'],
     [('skip, expand and truncate', 'DuplLimit::first, DuplLimit::next')], [('currentCount, entryCount, observedOutputCardinality', 'row within the current tuple, its multiplicity, rows delivered', 'DuplLimit.hpp')], ['counts and registers after first/next'],
     note='Loops by inductive invariants for any number of rows; the input is an arbitrary instance of the operator contract. Assumes one evaluation per operator object and fewer than 2^62 rows. Trusted: clang front end, VC generator, SMT solvers.')

prop('R04', 'Nested-loop join and filter produce exactly the matching combinations',
     'The nested-loop join delivers each combination of a left and a right tuple that agree on the join values exactly once with the product of the multiplicities, binds the registers of both, and ends only when all combinations are exhausted, also when the right input must be restarted or is empty. The nested-loop filter evaluates its input once for each of its listed values, in ascending order with the filter register set to that value, and delivers every tuple of each evaluation.',
     ['inputs', 'histories'], 'every pair of inputs of any length, every call sequence first, next, next, ...',
     QEX + 'A lost or repeated combination needs a specific position of empty, matching and non-matching rows.',
     ['rdf3x/src/rts/NestedLoopJoin.cpp', 'rdf3x/src/rts/NestedLoopFilter.cpp'],
     [('restart of the inner input for each outer tuple', 'NestedLoopJoin::next')], [('leftCount', 'multiplicity of the current outer tuple', 'NestedLoopJoin.hpp')], ['counts and registers after first/next'],
     note='Loops by inductive invariants; each restart of the inner input may yield a different sequence. Trusted: clang front end, VC generator, SMT solvers.')

prop('R05', 'VALUES, FILTER, UNION, MINUS, cross product and BIND deliver exact rows',
     'Given inputs that deliver arbitrary finite sequences of tuples with multiplicities: VALUES delivers every row of its list once, in order; a value filter delivers exactly the tuples whose value is (or is not) in the list, and never narrows a value domain below the list; UNION delivers the tuples of all parts one after another, unmapped registers unbound; MINUS delivers exactly the main tuples whose values on the common variables occur in no minus tuple, and everything if there are no common variables; the cross product delivers every combination once with the product of the multiplicities, an empty optional side replaced by one unbound tuple; BIND delivers every input tuple once with its multiplicity and the assigned values; the empty and the singleton scan deliver zero and one tuple. Evaluating an operator again delivers the same tuples.',
     ['inputs', 'histories'], 'every input sequence of any length, every list of values, any number of union parts, every call sequence first, next, next, ..., repeated evaluation',
     QEX + 'Whether a row is lost depends on the number of columns, on empty or exhausted inputs, on repeated evaluation and on which variables two sides share.',
     ['rdf3x/src/rts/ValuesScan.cpp', 'rdf3x/src/rts/Filter.cpp', 'rdf3x/src/rts/Union.cpp', 'rdf3x/src/rts/Minus.cpp', 'rdf3x/include/rts/operator/Minus.hpp', 'rdf3x/src/rts/CartProd.cpp', 'rdf3x/src/rts/Assignment.cpp'],
     [('row cursor', 'ValuesScan::next'), ('membership test', 'Filter::first/next'), ('part switching and register initialisation', 'Union::firstFromPart/next'), ('set of removed rows', 'Minus::first, HashVectors, EqualVectors'), ('buffered right side', 'CartProd::first/next')],
     [('processed,toBeProcessed', 'cursor in the value list', 'ValuesScan.hpp'), ('current', 'part being read', 'Union.hpp'), ('loaded,valuesToCheck,valuesHashMap', 'rows of the minus input', 'Minus.hpp'), ('buffer,idxbuffer', 'right side of the cross product', 'CartProd.hpp')], ['counts and registers after first/next'],
     note='Input sequences are arbitrary instances of the Operator interface; loops over tuples and over union parts are inductive; loops over the registers of one tuple are enumerated (0..2 registers, 0..3 in the thorough tier). Standard containers are contracts (set, unordered_set over the proved hash and equality). Trusted: clang front end, VC generator, SMT solvers.')

prop('R06', 'Merge join delivers every matching combination exactly once',
     'Joining two inputs sorted by the join value, the merge join delivers each combination of a left and a right tuple with equal join values exactly once, with the product of the two multiplicities and the registers of both tuples (including all further registers), in join-value order, and ends only when every combination was delivered; this covers single, 1:n, n:1 and n:m blocks and an input that ends inside or right after a block. With an optional side, every tuple of the other side that has no partner is delivered exactly once with its own multiplicity and the registers of the optional side marked unbound, and a tuple that has a partner is never delivered unbound.',
     ['inputs', 'histories'], 'every pair of sorted inputs of any length and block sizes, every optional mode, every call sequence first, next, next, ...',
     QEX + 'The operator is a state machine with sixteen states and two look-ahead tuples; errors need a specific succession of block shapes and ends of input.',
     ['rdf3x/src/rts/MergeJoin.cpp', 'rdf3x/include/rts/operator/MergeJoin.hpp'],
     [('state machine with look-ahead shadows', 'MergeJoin::next'), ('spooling of the right block', 'MergeJoin::handleNM')], [('leftShadow,rightShadow', 'look-ahead tuple of each side', 'MergeJoin.hpp'), ('buffer,bufferIter', 'spooled right block and its position', 'MergeJoin.hpp'), ('scanState', 'state of the scan', 'MergeJoin.hpp')], ['counts and registers after first/next'],
     note='A representation invariant per state plus the set of combinations still to deliver; one step from every state of the invariant is verified, the main loop inductively, for inputs and blocks of any length; one further register per side in the quick tier (0 to 2 in the thorough tier). Assumes multiplicities below 2^31, benchmarking switch disableSkipping off, and in optional mode join values below 2^64-1 (the unbound marker). Trusted: clang front end, VC generator, SMT solvers.')

prop('R07', 'Index scans deliver exactly the stored tuples matching the pattern',
     'A scan of a triple pattern over any of the twelve orders delivers exactly the stored triples whose bound positions equal the values the bound registers had when the scan was started, each once, in storage order, with the unbound registers set and the bound registers untouched; the aggregated scans do the same for the distinct leading pairs or single values, with the number of triples behind them as multiplicity. The right storage order, aggregation and register-to-position mapping is used for every order and bound pattern. The skipping hint given to the storage never moves backwards and never passes a tuple that agrees with the bound registers, lies in the registered value domains and is not below the merge-join partners.',
     ['inputs', 'histories'], 'every stored table, every order, every bound pattern, every call sequence first, next, next, ..., every domain and merge-hint state',
     QEX + 'Twelve orders times eight bound patterns times three aggregation levels are implemented by separate code; a wrong stop or filter condition shows only for specific table contents.',
     ['rdf3x/src/rts/IndexScan.cpp', 'rdf3x/src/rts/AggregatedIndexScan.cpp', 'rdf3x/src/rts/FullyAggregatedIndexScan.cpp'],
     [('choice of implementation and position mapping', 'IndexScan::create and the aggregated variants'), ('stop and filter conditions', 'Scan*, ScanFilter*, ScanPrefix*::first/next'), ('skip-ahead', 'IndexScanHint::next and the aggregated variants')], [('stop1..3, filter2..3', 'values of the bound registers at first()', 'IndexScan.cpp')], ['counts and registers after first/next', 'values returned by the hint'],
     note='Verified against an arbitrary enumeration by the storage (which may stop early or run past the prefix); the hint uses the contract of nextCandidate proved in R01, merge lists of any length. Which registers become merge hints (handleHints) is only exercised natively. Trusted: clang front end, VC generator, SMT solvers.')

prop('R08', 'Nested loops, merge union and LIMIT/OFFSET deliver exactly the right rows',
     'Given inputs that deliver arbitrary finite sequences: the nested-loop join evaluates its right side once for each left tuple, while the left registers hold that tuple, and delivers each combination once with the product of the multiplicities; the merge union of two sorted inputs repeatedly delivers the smaller front value with its multiplicity, adding up the multiplicities when both fronts hold it, until both inputs are exhausted, also when the result shares a register with an input; LIMIT/OFFSET delivers the rows from the offset on, one by one (a tuple of multiplicity n counts as n rows, or as one when duplicates are dropped), and stops at the limit. Evaluating an operator again delivers the same tuples.',
     ['inputs', 'histories'], 'every input sequence of any length and multiplicities, every limit and offset, every call sequence first, next, next, ..., repeated evaluation',
     QEX + 'Errors need an input that ends in a particular state of the merge, a left tuple without partners, or an offset that ends inside a tuple with duplicates.',
     ['rdf3x/src/rts/NestedLoopJoin.cpp', 'rdf3x/src/rts/MergeUnion.cpp', 'rdf3x/src/rts/DuplLimit.cpp'],
     [('skip left tuples without partners', 'NestedLoopJoin::first/next'), ('six-state merge', 'MergeUnion::next'), ('row counting', 'DuplLimit::first/next')],
     [('leftCount', 'multiplicity of the current left tuple', 'NestedLoopJoin.hpp'), ('state,leftValue,rightValue', 'which fronts are consumed', 'MergeUnion.hpp'), ('currentCount,entryCount,observedOutputCardinality', 'row within the tuple and rows delivered', 'DuplLimit.hpp')], ['counts and registers after first/next'],
     note='Inputs are arbitrary instances of the Operator interface (the right side of a nested loop may differ per left tuple); all loops inductive, no bound. Assumes products of multiplicities do not wrap. Trusted: clang front end, VC generator, SMT solvers.')

prop('T01', 'Row-layout storage tables return exactly the stored pairs asked for',
     'Reading a sorted row-layout table of (v1,v2) pairs returns exactly what is stored: an unrestricted scan yields every pair in order, a lookup by first value yields exactly the pairs with that value, a lookup by both values yields the pair if it is stored and nothing otherwise. With the second column ignored each distinct first value is yielded once, with getCount equal to its number of pairs; getCardinality counts pairs (or distinct first values) without disturbing the iteration; moveto(c1,c2) makes the next tuple the smallest one not before the current tuple nor before the target; mark/reset returns to a marked position. Every stored number is read as the unsigned big-endian value of its column width, and no byte outside the table is read.',
     ['inputs', 'histories'], 'every sorted table of any number of rows, every column-width combination, every key (present or not), every sequence of next/moveto/getCardinality/mark/reset calls',
     QEX + 'Off-by-one errors appear only at group borders, at the 64-row binary-search threshold, at the last row or for values with the top bit set.',
     ['include/trident/binarytables/newrowtable.h', 'include/trident/binarytables/binarytablereaders.h', 'include/trident/iterators/pairitr.h'],
     [('binary search then linear scan', 'NewRowTable::setup(c1,..), setup(c1,c2,..)'), ('group skipping', 'NewRowTable::next, ignoreSecondColumn'), ('seek', 'NewRowTable::moveto')],
     [('start,current,end', 'rows covered and next row', 'newrowtable.h'), ('currentValue1/2,count', 'current tuple', 'newrowtable.h')], ['getValue1/getValue2/getCount/hasNext/getCardinality'],
     note='Proved for tables of any size (ghost lower/upper-bound positions, Skolem row); template instantiated for three width combinations (all sixteen in the thorough tier). Assumes non-empty sorted distinct pairs, ignoreSecondColumn called before iterating or right after the first tuple of a group, moveto after at least one next and with c2<=0 when the second column is ignored. Trusted: clang front end, VC generator, SMT solvers.')

prop('T02', 'Clustered storage tables return exactly the stored pairs asked for',
     'Reading a sorted clustered table (groups of a first value, a count and the second values) returns exactly what is stored: an unrestricted scan yields every pair in order, a lookup by first value yields exactly the pairs of that group, a lookup by both values yields the pair if it is stored and nothing otherwise. With the second column ignored each first value is yielded once, with getCount equal to the number of its pairs; getCardinality counts pairs (or groups), also after a lookup of one pair, without disturbing the iteration; moveto(c1,c2) makes the next tuple the smallest one not before the current tuple nor before the target; mark/reset restores a marked position. No byte outside the table is read.',
     ['inputs', 'histories'], 'every sorted clustered table of any number and size of groups, every key (present or not), every sequence of next/moveto/getCardinality/mark/reset calls',
     QEX + 'Errors appear only at the first or last pair of a group, at the end of the table, or for absent keys.',
     ['include/trident/binarytables/newclustertable.h', 'include/trident/binarytables/binarytablereaders.h'],
     [('group walk then binary search inside the group', 'NewClusterTable::setup(c1,..), setup(c1,c2,..)'), ('seek', 'NewClusterTable::moveto'), ('group bookkeeping', 'NewClusterTable::next, count/countgroup')],
     [('start,current,end', 'bytes covered and next position', 'newclustertable.h'), ('count,countgroup', 'pairs left in the current group and its size', 'newclustertable.h')], ['getValue1/getValue2/getCount/hasNext/getCardinality'],
     note='Proved for tables of any size: groups at unbounded byte offsets (uninterpreted layout predicate), ghost lower-bound group and positions. Template instantiated for two width combinations (20 in the thorough tier; combinations whose second-value width is one byte or equals the count width are only covered by the bounded native driver). Assumes non-empty groups, strictly sorted, moveto after at least one next. Trusted: clang front end, VC generator, SMT solvers.')

prop('I01', 'In-memory pair iterator returns exactly the matching rows of its array',
     'An iterator over a sorted in-memory array of pairs, with none, the first, or both columns constrained, starts at the first matching row and yields exactly the matching rows in order; hasNext is true exactly when another one follows. With the second column ignored each distinct first value is yielded once and getCount is its number of rows; getCardinality is the number of matching rows (or distinct first values) and disturbs nothing; moveto(c1,c2) makes the next tuple the smallest one before neither the current tuple nor the target; mark/reset returns to a marked position. No element outside the array is read.',
     ['inputs', 'histories'], 'every sorted array of any length, every constraint (present or not), every sequence of hasNext/next/getCount/moveto/mark/reset calls',
     QEX + 'Empty arrays, absent pairs, group borders and moves right after hasNext each take their own code path.',
     ['src/trident/iterators/arrayitr.cpp', 'include/trident/iterators/arrayitr.h'],
     [('binary search', 'ArrayItr::binarySearch, init'), ('cached look-ahead', 'ArrayItr::hasNext, getCount'), ('seek', 'ArrayItr::moveto')],
     [('pos, hasNextChecked, n', 'next row and cached answer', 'arrayitr.h'), ('v1,v2,countElems', 'current tuple and group size', 'arrayitr.h')], ['hasNext/getValue1/getValue2/getCount/getCardinality'],
     note='Every function proved for arrays of any length below 2^30 rows with values below 2^63 (array contents as uninterpreted functions, ghost bound functions). Assumes moveto after next() (hasNext/getCount may come in between), non-negative targets, getCount after next() and before hasNext(), no mark/reset with ignored second column. Trusted: shared_ptr assignment, clang front end, VC generator, SMT solvers.')

prop('I02', 'Reading with removals delivers exactly the triples that were not removed',
     'An iterator that subtracts a set of removed tuples from a main iterator delivers exactly the tuples of the main iterator that are not removed, each once and in order; hasNext is true exactly when another one follows, however often it is asked. With the second column ignored each first value is delivered with the number of its remaining pairs, and not at all when none remains. moveto(c1,c2) beyond the current tuple makes the next tuple the smallest remaining one not before the target, also right after hasNext(). getCardinality is the main cardinality less the removed one and estCardinality lies between zero and the main estimate.',
     ['inputs', 'histories'], 'every pair of sorted inputs (removals contained in the main input), over one or several keys, every sequence of hasNext/next/moveto calls',
     QEX + 'Whether the removal cursor is before, at or behind the main cursor at a group border or at the end decides the path taken.',
     ['src/trident/iterators/rmitr.cpp', 'include/trident/iterators/rmitr.h'],
     [('anti-merge of two sorted iterators', 'RmItr::hasNext, cmp'), ('seek', 'RmItr::moveto')],
     [('rmitrvalid, hnc, hn', 'whether a removal is pending, cached look-ahead', 'rmitr.h'), ('curCount,nextCount', 'remaining pairs of the group', 'rmitr.h')], ['hasNext/getKey/getValue1/getValue2/getCount'],
     note='Inputs are arbitrary instances of the pair-iterator contract (any length, any keys); the loops are proved by invariants over a ghost rank function. Assumes removals are contained in the main input, ignoreSecondColumn right after init, moveto within one key to a target after the current tuple, mark/reset not used. Trusted: the iterator contract of the inputs (T01, T02, I01 prove it for the storage tables and the in-memory iterator), clang front end, VC generator, SMT solvers.')

# ------------------------------------------------------------------ not applicable
KOG = 'it lives in sources that include the KOGNAC library (absent here, nothing can be fetched): they neither compile nor run in this sandbox, so no contract can be attached to the code that runs'
prop('R09', 'Hash join delivers every combination with equal join values exactly once',
     'Over two inputs in any order, the hash join returns, for every left row and right tuple with the same join value, their combination exactly once with the product of the multiplicities (equal left rows are merged and their multiplicities added), and nothing else; with an optional side it also returns every tuple without partner of the other side exactly once, the missing registers unbound. The hash table never loses, duplicates or misplaces an entry, whatever the keys and however often it is rebuilt; every left value stays in the domain that is passed sideways; a second evaluation gives the same result.',
     ['inputs', 'histories'], 'every pair of inputs, hash collisions, chains and table growth, all four optional modes, restarts', 'Results go wrong only for colliding keys, chains, table growth beyond 1024 keys, empty sides or a restart.',
     ['rdf3x/src/rts/HashJoin.cpp', 'rdf3x/include/rts/operator/HashJoin.hpp'], [('cuckoo table with chains of equal keys, grown on collisions, then probing', 'HashJoin::BuildHashTable::run, HashJoin::insert, HashJoin::next')], observe=['HashJoin::first', 'HashJoin::next', 'output registers'],
     note='The universally quantified facts about table and entries are proved for arbitrary slots, entries and chain positions and used through their instances; each loop invariant that is used this way is mandatory.')
prop('B01', 'A tree node is an exact sorted key list through every change, search and reload',
     'A node of the B+tree represents an ordered list of keys, whichever of its encodings (arithmetic sequence with any stride, key array, texts by position) it is in: inserting or removing at any position changes exactly that key, splitting a full node moves exactly the upper half to the new (fresh or reused) node, a search returns the position of the key or its unique insertion point, and serialize followed by unserialize (into a fresh or reused node) gives back exactly the same keys.',
     ['inputs', 'histories'], 'every node state, position, key, stride and history of changes and reloads', 'Errors need a stride other than 1, a stride of 128 and more, texts stored out of order, or a change after a reload.',
     ['src/trident/tree/node.cpp', 'include/trident/tree/node.h', 'include/trident/tree/treecontext.h'], [('firstKey plus stride, or firstKey plus differences, switched on insert, remove, split and store', 'Node::putkeyAt, Node::removeKeyAtPos, Node::split, Node::serialize, Node::unserialize')], observe=['Node::keyAt', 'Node::pos', 'bytes of Node::serialize'],
     note='The node code is compiled with stand-ins for the KOGNAC headers it includes; number codecs, string buffer and pools appear as assumed contracts.')
prop('N01', 'Dictionary encoding is a bijection between terms and numbers',
     'Every term loaded into the knowledge base gets exactly one number and every number decodes to exactly its term, for every set of terms and over restarts; a lookup of an absent term reports absence.',
     ['inputs', 'histories'], 'every set of terms, every history of insertions', QEX + 'Collisions and page splits need particular term sets.',
     ['src/trident/kb/dictmgmt.cpp', 'include/trident/tree/stringbuffer.h', 'src/trident/tree/stringbuffer.cpp'],
     [('two B+trees plus a compressed string buffer', 'DictMgmt, Root, StringBuffer')], observe=['getText/getNumber'],
     na=KOG + ' (StringBuffer additionally uses background threads and a linked LZ4 and sparsehash)')
prop('N02', 'A query over the knowledge base returns exactly the answers of its pattern',
     'For every loaded set of triples and every SPARQL query in the supported fragment the result bag equals the one defined by the SPARQL semantics, independent of the plan chosen, of the join operators used and of the order in which triples were loaded.',
     ['inputs'], 'every data set, every query, every plan', QEX + 'Plans and data distributions cannot be sampled exhaustively.',
     ['src/trident/sparql', 'rdf3x/src/cts', 'src/layers/TridentLayer.cpp'],
     [('parser, semantic analysis, plan generation, code generation, execution', 'rdf3x/src/cts and src/trident/sparql')], observe=['query results'],
     na='needs a functional-correctness proof of the SPARQL parser, the optimiser and every operator together; a whole-language semantics over strings, maps and recursive plan trees is out of reach of the verifier. The operators a plan is made of are covered one by one by the R properties')
prop('N03', 'Bulk loading stores exactly the distinct input triples in every permutation',
     'After loading, every one of the six permutations contains exactly the distinct input triples, whatever the number of threads, the sorting memory and the chosen storage layout.',
     ['inputs', 'schedules'], 'every input, every thread count', QEX + 'Losses depend on chunk borders and thread interleavings.',
     ['src/trident/kb/kb.cpp', 'include/trident/loader.h', 'src/trident/loader'], [('parallel external sort, then insertion per permutation', 'Loader, Inserter')], observe=['stored tables'],
     na=KOG + '; its core is thread pools over compressed files, which the sequential verifier does not model')
prop('N04', 'Queries after an update see exactly base plus additions minus removals',
     'A query after an update sees exactly (base plus additions minus removals), through every permutation and iterator, and the update survives reopening the knowledge base.',
     ['histories', 'crashes'], 'every sequence of additions and removals, every reopening', QEX + 'Only particular overlaps of additions and removals go wrong.',
     ['src/trident/kb/updater.cpp', 'src/trident/kb/diffindex.cpp', 'include/trident/iterators/difftermitr.h'], [('differential index merged at read time', 'DiffIndex1, DiffIndex3, CompositeTermItr')], observe=['iterators of Querier'],
     na=KOG)
prop('N05', 'Concurrent readers see the same answers as a single reader',
     'Any number of concurrent read-only queries return what each would return alone, without races on the shared file and memory managers.',
     ['schedules'], 'every interleaving of any number of readers', 'Tests are sequential.',
     ['include/trident/files/filemanager.h', 'include/trident/tree/cache.h', 'rdf3x/src/infra/osdep'], [('memory manager with LRU eviction', 'MemoryManager, FileManager')], observe=['query results'],
     na='a statement about thread interleavings; the verifier is sequential (no ownership or permission logic for shared memory), so no contract here decides it')
prop('N06', 'Graph analytics over the loaded graph compute their textbook definitions',
     'Page rank, hubs and authorities, triangle counts, connected components, clustering coefficients and the like equal their mathematical definition for every graph.',
     ['inputs'], 'every graph', 'The tests sample three graphs.',
     ['snap/snap-core', 'include/trident/ml', 'src/trident/utils'], [('SNAP algorithms over TNGraph-like adapters', 'snap-core')], observe=['algorithm results'],
     na='floating-point iterations and hash-table based C++ templates; the engine has no floating-point theory strong enough and no contracts for SNAP hash tables')
prop('N07', 'Learned embeddings minimise the stated loss',
     'TransE/DistMult/HolE training applies the gradient of the stated loss and converges as specified, with any number of learner threads.',
     ['inputs', 'schedules'], 'every graph and seed', 'Not testable by samples.', ['src/trident/ml'], [('hogwild gradient descent', 'src/trident/ml')], observe=['embeddings'],
     na='floating-point optimisation with deliberate data races; not expressible as a contract this verifier can decide')
prop('N08', 'The HTTP endpoint answers every request without crashing or leaking data',
     'Every byte sequence sent to the SPARQL endpoint gets a well-formed response or a clean refusal.',
     ['inputs', 'schedules'], 'every request', QEX, ['src/trident/server', 'include/trident/server'], [('request parser and dispatcher', 'TridentServer')], observe=['HTTP responses'],
     na=KOG)
