"""Single source for properties.jsonl and MANIFEST.json (run tools/gen_meta.py)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), tech="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, observe=observe, state=list(state), tech=tech, note=note, na=na))


TLA = "TLA+ spec checked exhaustively with TLC; "

prop("C01", "A stack is last-in-first-out over every history",
     "Any history of pushes (a single record or a 1-D batch), pops, peeks and index reads that never holds more than the declared maximum and never asks for more records than are held behaves exactly like the ideal last-in-first-out sequence: a pop or peek of k returns the k most recently pushed records in push order with every field intact (a single unbatched record when k is 1), reading position i gives the i-th record from the bottom, and the size is the number held. "
     "Every earlier stack value keeps giving the same answers after later operations.",
     ["histories", "inputs"],
     "Every operation history within capacity, for every record type (scalars, tensors, nested, packed fields), batch size and maximum size, including branching histories from old values.",
     "Tests push one fixed sequence of a few points on one stack; they cannot reach all interleavings of single/batch pushes, pops of varying width, refills after pops, exact-capacity states and branches from old values.",
     ["xtructure/stack/stack.py", "xtructure/core/xtructure_decorators/indexing.py"],
     [{"name": "push scatters at size..size+n-1, pop/peek gather size-n..size-1", "where": "xtructure/stack/stack.py"}],
     ["return values of push/pop/peek/[] and the size attribute"],
     [{"name": "contents", "meaning": "sequence of records held, bottom first", "where": "Stack.val_store[:size]"}],
     tech=TLA + "every transition of the state graph replayed on the real stack, all recorded histories validated by TLC")

prop("C02", "A queue is first-in-first-out over every history",
     "Any history of enqueues (a single record or a 1-D batch), dequeues, peeks, clears and index reads in which no more than the declared maximum is enqueued between construction or a clear and the next clear, and never more is removed than is held, behaves exactly like the ideal first-in-first-out sequence: a dequeue or peek of k returns the k oldest records in order with every field intact (a single unbatched record when k is 1), reading position i gives the i-th oldest record, and size is the number held. "
     "After a clear the queue behaves as newly built, and every earlier queue value keeps giving the same answers after later operations.",
     ["histories", "inputs"],
     "Every operation history within the stated bounds, every record type, batch size and maximum size, with clears at any point and branches from old values.",
     "Tests run one fixed enqueue/dequeue script; head/tail arithmetic, clear-then-reuse, exact fill and branch-from-old-value histories are not sampled.",
     ["xtructure/queue/queue.py", "xtructure/core/xtructure_decorators/indexing.py"],
     [{"name": "enqueue scatters at tail.., dequeue/peek gather from head..", "where": "xtructure/queue/queue.py"}],
     ["return values of enqueue/dequeue/peek/clear/[] and size"],
     [{"name": "contents", "meaning": "records between head and tail", "where": "Queue.val_store[head:tail]"}],
     tech=TLA + "every transition of the state graph replayed on the real queue, all recorded histories validated by TLC")

prop("C03", "A hash table is a set with permanent record addresses",
     "After any history of single and batched insertions, a single or batched lookup reports found for exactly the records inserted so far, the size equals the number of distinct records stored, and a single insertion reports success exactly when the record was new and room remained. "
     "The address returned by any insertion or lookup of a stored record reads back that record, byte for byte, now and after every later insertion, and distinct stored records never share an address. "
     "Records are identified by the content of all their fields (NaN and signed zeros aside), whatever the type, seed, capacity or bucket size (up to 255), including records equal to the default fill.",
     ["histories", "inputs", "configurations"],
     "Every insertion/lookup history, record type, seed, capacity and bucket size, in particular histories in which records collide on bucket, probe step or fingerprint.",
     "Tests insert random records once into a large table; collisions that overflow a bucket, probe chains that share or cross buckets, and records differing in a single field are reached only by chance, if at all.",
     ["xtructure/hashtable/table.py", "xtructure/hashtable/lookup.py", "xtructure/hashtable/insert.py", "xtructure/hashtable/hash_utils.py", "xtructure/core/xtructure_decorators/hash.py"],
     [{"name": "bucketed double hashing with contiguous fill levels; lookup stops at first non-full bucket", "where": "xtructure/hashtable/lookup.py"},
      {"name": "slot conflict resolution for batch insertion", "where": "xtructure/hashtable/insert.py"}],
     ["insert/parallel_insert/lookup/lookup_parallel/[] results and size"],
     [{"name": "members", "meaning": "set of records stored with their addresses", "where": "HashTable.table, bucket_fill_levels, fingerprints"}],
     tech=TLA + "bucket/probe-level spec refines the abstract set; behaviours steered to collide are run on the real table and validated by TLC")

prop("C04", "Batched insertion deduplicates with one right representative",
     "In one batched insertion, among equal records at positions marked valid exactly one is flagged as the unique representative: the one with the smallest supplied priority, ties going to the lowest position, or the first position when no priority is given; a position is flagged inserted exactly when it is a representative whose record was not already stored and room remained. "
     "Every valid duplicate is given the address of its record, and positions marked invalid are never flagged, never inserted and never influence which other position is chosen.",
     ["inputs", "histories", "configurations"],
     "Every batch (duplicates, validity mask, priorities of float or integer type, scalar mask), on every prior table contents.",
     "Tests use a handful of batches with at most one duplicate pattern; priority ties, invalid duplicates with better priorities, all-invalid groups and duplicates of stored records are not sampled together.",
     ["xtructure/hashtable/insert.py", "xtructure/hashtable/hash_utils.py"],
     [{"name": "sort-based grouping by hash pair with exact fallback, min-priority selection", "where": "xtructure/hashtable/hash_utils.py"}],
     ["parallel_insert's inserted mask, unique mask and addresses; subsequent lookups"],
     tech=TLA + "all small batches enumerated by TLC and replayed, random histories validated by TLC")

prop("C05", "A loaded or full hash table never loses or overwrites records",
     "Under the default probe limit an insertion succeeds whenever the distinct records, including those of the same batch, do not exceed the declared capacity, for any bucket size and size multiplier of at least one. "
     "Beyond that, or under an explicit probe limit, an insertion may be refused, but whatever is reported inserted is found by every later lookup, whatever is refused is reported as not inserted and is not found, no stored record is ever lost or overwritten, and the size stays equal to the number of stored records.",
     ["histories", "configurations", "inputs"],
     "Every capacity, bucket size, size multiplier, probe limit and insertion history, up to and past a completely full table.",
     "Tests never fill a table: the full-table, last-bucket, wrap-around and probe-limit paths are not exercised.",
     ["xtructure/hashtable/insert.py", "xtructure/hashtable/lookup.py", "xtructure/hashtable/table.py"],
     [{"name": "probe limit and fill-level checks", "where": "xtructure/hashtable/lookup.py, insert.py"}],
     ["inserted flags, lookups and size past capacity"],
     tech=TLA + "bucket-level spec explored to full tables; over-full histories of the real table validated by TLC")

prop("C06", "A priority queue always returns its smallest keys, sorted",
     "In any history of batch insertions and minimum-deletions within the declared capacity, each deletion returns, in ascending order, exactly the smallest keys held (batch-size many, or all of them followed by infinite padding when fewer are held). "
     "This holds for any finite keys, including duplicates and negatives, any batch size and capacity, partially filled insertion batches in any order, and any interleaving of insertions with deletions.",
     ["histories", "inputs", "configurations"],
     "Every insertion/deletion history within capacity, every key multiset and arrangement, batch size, capacity and key type.",
     "Heap tests are random, huge-batch and mostly insert-all-then-delete-all; small irregular trees, refill after partial drain, ties and buffer-boundary interleavings are not covered, and the delete tests sample a few fixed cases.",
     ["xtructure/bgpq/bgpq.py", "xtructure/bgpq/_insert.py", "xtructure/bgpq/_delete.py", "xtructure/bgpq/_merge.py", "xtructure/bgpq/merge_split/split.py"],
     [{"name": "block heap invariant kept by merge-and-split along insertion path and on deletion", "where": "xtructure/bgpq/_insert.py, _delete.py"}],
     ["keys returned by delete_mins"],
     [{"name": "heap", "meaning": "multiset of (key, record) pairs held", "where": "key_store/val_store/key_buffer/val_buffer"}],
     tech=TLA + "node-level heap spec model-checked against the abstract multiset; all small histories replayed and validated by TLC")

prop("C07", "A priority queue conserves its key-record pairs",
     "Within the declared capacity every inserted pair of finite key and record leaves the queue exactly once, with its own key and every field of its record intact, and nothing that was not inserted ever appears with a finite key. "
     "The reported size always equals the number of pairs inserted minus the number returned, and padding a short batch to the batch size adds no pair and alters none.",
     ["histories", "inputs", "configurations"],
     "Every history within capacity, every record type, batch size including one, and partially filled batches.",
     "Existing tests compare keys recomputed from records under random data; lost, duplicated or swapped records among equal keys, and size drift over interleaved histories, are not checked.",
     ["xtructure/bgpq/_insert.py", "xtructure/bgpq/_delete.py", "xtructure/bgpq/_merge.py", "xtructure/bgpq/bgpq.py"],
     [{"name": "values are permuted with keys; buffer and heap sizes recomputed from finite keys", "where": "xtructure/bgpq/_merge.py, _insert.py"}],
     ["delete_mins' finite keys and records, size, make_batched outputs"],
     tech=TLA + "node-level heap spec model-checked for conservation; drained histories of the real queue validated by TLC")

prop("C08", "An over-full priority queue degrades safely",
     "When insertions exceed the capacity, the queue only discards: what it still holds afterwards is a sub-collection of the pairs held before plus the pairs inserted, each at most as often as it was there, with keys and records still matched. "
     "The smallest batch of keys always survives, at least as many pairs as the declared capacity are kept when more were offered, deletions keep returning sorted batches of the smallest keys held, and the reported size equals the number of pairs that can still be removed.",
     ["histories", "inputs", "configurations"],
     "Every history that crosses the capacity, at any point, followed by any further insertions and deletions.",
     "One test drives a full queue with random large data and checks only keys; the eviction path (choice of the worst node, path merge, ties) has many shapes at small sizes that are never reached.",
     ["xtructure/bgpq/_insert.py", "xtructure/bgpq/_delete.py"],
     [{"name": "full heap pushes the overflowing block down the path to the worst node", "where": "xtructure/bgpq/_insert.py"}],
     ["delete_mins until empty on a retained copy, size"],
     tech=TLA + "full-heap actions of the node-level spec model-checked; over-full histories validated by TLC")

prop("C09", "Operations are pure and transform-invariant",
     "Every container and batch operation gives the same answer whether called directly, inside a compiled function, mapped over a batch of independent containers, or folded inside a compiled loop, and never changes the values it was given. "
     "Containers and records can be flattened to arrays and rebuilt, passed through compiled functions, loops and conditionals, and stacked and unstacked without changing behaviour. "
     "(Within declared capacities; answers at positions marked invalid or absent are not compared.)",
     ["histories", "programs", "inputs"],
     "Every history of container and batch operations, under every way of composing program transformations around it.",
     "Tests call methods eagerly, one container at a time; behaviour under vmap, scan, cond and after tree round trips is not compared with the eager history.",
     ["xtructure/core/dataclass.py", "xtructure/stack/stack.py", "xtructure/queue/queue.py", "xtructure/hashtable", "xtructure/bgpq", "xtructure/core/xtructure_decorators"],
     [{"name": "pytree registration with static fields", "where": "xtructure/core/dataclass.py"}],
     ["results of the same history executed eagerly, jitted, vmapped and scanned"],
     tech=TLA + "one container history executed under each transformation; every execution validated against the same spec by TLC")

prop("C10", "Performance switches never change results",
     "The environment switches that select sorting, deduplication (safe and exact), hash streaming, hash aggregation, packing and merge-reordering implementations affect speed only: the same history gives results that all satisfy the same container and codec guarantees, record hashes are the same under every streaming setting, and packed forms and deduplication masks are the same under every supported setting. "
     "A setting of a selection switch that is not supported is refused with an error rather than silently changing behaviour. (The deduplication mode named approximate is exempt.)",
     ["configurations", "inputs", "histories"],
     "Every combination of supported switch values, on every history and input.",
     "Tests run under the default environment, with one smoke test for one alternative switch.",
     ["xtructure/hashtable/constants.py", "xtructure/hashtable/hash_utils.py", "xtructure/bgpq/_constants.py", "xtructure/bgpq/_utils.py", "xtructure/core/xtructure_decorators/hash.py", "xtructure/core/xtructure_decorators/aggregate_bitpack"],
     [{"name": "module-level backend selection from the environment", "where": "hash_utils.py, _constants.py, hash.py, kernels.py"}],
     ["hashes, packed bytes, dedupe masks, container histories in differently configured processes"],
     tech=TLA + "the same trace specification validates one process per switch setting; a shared result memo in the spec forces agreement")

prop("C11", "Conditional scatter: the first true update wins, nothing else moves",
     "A conditional update with a list of positions, a condition per entry and new records (or one scalar) leaves every position untouched except those named by an entry whose condition is true, and each of those receives the record of the first such entry, in all fields alike. "
     "In the one-dimensional form entries naming a position outside the batch have no effect; in the tuple form positions lie inside it. The indexed-assignment form under a condition gives the same outcome, for any batch size and integer index type.",
     ["inputs", "programs"],
     "Every batch, index list with repetitions in any order, condition mask, multi-dimensional index tuples, record or scalar values, and record type.",
     "Tests use a few index lists; interleavings of true/false duplicates, several duplicate groups, tuple indices and multi-field records are sampled thinly.",
     ["xtructure/core/xtructure_numpy/array_ops.py", "xtructure/core/xtructure_decorators/indexing.py", "xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py"],
     [{"name": "first-true-wins index arbitration by segment minimum", "where": "xtructure/core/xtructure_numpy/array_ops.py"}],
     ["update_on_condition and .at[].set_as_condition results"],
     tech=TLA + "sequential first-true-wins spec; all small update lists enumerated by TLC and replayed, random ones validated by TLC")

prop("C12", "Duplicate filtering keeps exactly the best copy of each record",
     "The uniqueness mask over a batch marks exactly one position per distinct record among the positions declared valid: the first one, or with costs the one of least cost with ties going to the lowest position, and none for a record whose costs are all infinite. "
     "The optional index and inverse outputs are consistent with the mask, so that gathering by them rebuilds the batch of valid records.",
     ["inputs"],
     "Every batch, record type (including wide, negative and packed fields and all-ones values), cost vector of float or integer type, validity mask and custom key function.",
     "Tests check a dozen small batches; records that collide under the internal row compression, all-ones rows next to invalid ones, packed remainders and integer costs are not sampled.",
     ["xtructure/core/xtructure_numpy/dataclass_ops/unique_ops"],
     [{"name": "row grouping by sorted keys / row hash, segment minimum over costs", "where": "unique_ops/optimized_unique_ops.py"}],
     ["unique_mask results"],
     tech=TLA + "set-level spec; all small batches enumerated by TLC and replayed, random batches validated by TLC")

prop("C13", "Batch rearrangement moves whole records",
     "Joining, stacking, splitting, padding, reshaping, flattening, transposing, axis moving and swapping, gathering, repeating, tiling, flipping and rolling along batch dimensions rearrange whole records: every field of the result holds, at each batch position, the field of the one source record the array operation of the same name puts there, and padding adds only fill records. "
     "No record is lost, duplicated beyond what the operation says, or mixed from the fields of several records, and per-record field dimensions are never rearranged: joining or stacking batches that do not fit each other, reshaping to another number of records, an uneven split, padding widths for another number of axes, and axes outside the batch given to concat, swapaxes or transpose are refused, and so are batches of different record types, arrays mixed with records, and options which have no meaning for records (such as dtype, order, out). Gathering with a rule for positions outside the batch (clip, wrap, a fill value) applies it to whole records, and plain arrays are treated as jax.numpy treats them. (Batch axes are given explicitly, counted from the front, or also from the back for concat and swapaxes; operations that promote the rank of their arguments, such as tile, the h/v/d/column stacks, block, atleast_nd and broadcasts, are meant for records whose fields are all scalars.)",
     ["inputs", "programs"],
     "Every composition of these operations over every batch shape, record type and valid batch axis argument.",
     "Tests check single operations at one or two shapes; compositions and multi-dimensional batches of records with tensor and nested fields are not covered.",
     ["xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/spatial_ops.py", "xtructure/core/xtructure_decorators/shape.py"],
     [{"name": "per-leaf application with batch-rank bookkeeping", "where": "batch_ops.py, shape_ops.py"}],
     ["fields of operation results"],
     tech=TLA + "record-array semantics specified in TLA+; random programs over real batches validated step by step by TLC")

prop("C14", "Indexing reads and writes whole records",
     "Indexing a batch with integers, slices, masks, integer arrays or tuples of them returns the records at those positions with all fields aligned, and indexed assignment returns a new batch in which exactly those positions hold the given records (or the given scalar in every field) and all others are unchanged. "
     "Selection between two batches by a scalar condition, or by a condition per record where all fields are scalars, picks whole records, and record comparison is true exactly when every field is equal everywhere. (Positions are in range, negative ones counted from the end; assigned positions are distinct.)",
     ["inputs", "programs"],
     "Every batch shape, index expression, record type and value form, in any sequence of reads and writes.",
     "Tests use a couple of indices on 1-D batches; sequences of overlapping writes, multi-dimensional batches, masks and negative positions are sampled thinly.",
     ["xtructure/core/xtructure_decorators/indexing.py", "xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/comparison_ops.py", "xtructure/core/xtructure_decorators/ops.py"],
     [{"name": "leaf-wise gather/scatter with the same index", "where": "indexing.py"}],
     ["results of [], .at[].set, where, ==, !="],
     tech=TLA + "register-file spec of a record batch; random read/write programs validated by TLC")

prop("C15", "Whole-record bit packing is lossless and stable",
     "Packing a record whose fields declare bit widths and unpacking it again gives back every field exactly, for any values within the declared widths, any combination of widths and shapes including nested ones, and any batch shape; reading one field (or one position of it) from the packed form agrees with unpacking everything. "
     "The packed form has the advertised size and holds each field at its advertised bit offset, distinct records have distinct packed forms, packing is the same for a record alone as inside a batch, and records drawn at random hold only values their declared widths can hold.",
     ["inputs", "programs"],
     "Every declared layout (widths 1 to 32, shapes, nesting), every value assignment and batch shape.",
     "Tests pack three fixed layouts; widths that straddle 32-bit words, every tail length and multi-field misalignments are not covered.",
     ["xtructure/core/xtructure_decorators/aggregate_bitpack"],
     [{"name": "bit-offset layout, word packing and tail bytes", "where": "aggregate_bitpack/spec.py, bitpack.py, kernels.py"}],
     [".packed, .unpacked, unpack, unpack_field results"],
     tech=TLA + "bit-level packing spec in TLA+; packed words, tails and round trips of real layouts validated by TLC")

prop("C16", "Packed tensor fields read back what was written",
     "A field declared as a packed tensor returns, through its unpacked view, exactly the values given at construction or by the last update, for any width from 1 to 32 bits, shape and batch shape; building a record from unpacked values and reading the view are inverse, updating one packed field leaves all other fields unchanged, and raw packed arrays convert both ways without loss. "
     "The stored size is the advertised number of bytes.",
     ["inputs", "histories"],
     "Every width, shape, batch shape, value assignment and sequence of construct/update/read.",
     "Tests cover widths 1, 4, 12 at a few shapes; widths that do not divide bytes with lengths that need padding are sampled thinly.",
     ["xtructure/core/xtructure_decorators/bitpack_accessors.py", "xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py", "xtructure/core/field_descriptors.py"],
     [{"name": "block packing over lcm(bits,8)", "where": "xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py"}],
     ["<field>_unpacked, set_unpacked, from_unpacked, to_uint8/from_uint8"],
     tech=TLA + "register spec per field plus bit-level byte layout in TLA+; real histories validated by TLC")

prop("C17", "Saving and loading preserves records and types",
     "Loading a file gives back a record of the same class whose every field has the same dtype, shape and bytes as the record last saved under that name, for single and batched records with nested, boolean, low-precision and bit-width-declared fields, compressed bit storage on or off. "
     "(Values lie within the declared widths and dtypes.) Saves to different files do not affect each other, and loading a file with the wrong class, a missing file or a file that is not a saved record raises an error instead of returning data.",
     ["histories", "inputs"],
     "Every sequence of saves, overwrites and loads over several files and classes, every record type and value.",
     "Tests save and load one instance of a few classes once; overwrites, mixed classes, low-precision types and width-declared fields in batches are not covered.",
     ["xtructure/io/io.py", "xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py", "xtructure/core/xtructure_decorators/io.py"],
     [{"name": "npz with class metadata, bit-packed leaves and dtype restoration", "where": "xtructure/io/io.py"}],
     ["save/load results"],
     tech=TLA + "file-store spec (name to class and content); all short save/load histories enumerated by TLC and replayed, validated by TLC")

prop("C18", "Record hashes are functions of content and seed alone",
     "Equal records have equal hashes for equal seeds however they are computed: alone or as any element of a batch, directly or compiled or mapped, in another process, from a rebuilt or reloaded copy, and the single hash and the hash pair each agree with their forms that also return the word view. "
     "Byte and word views of a record (items of 1, 2 or 4 bytes, no NaN) are determined by its content, distinct records of one class have distinct byte and word views, and changing any single bit of any field changes the views.",
     ["inputs", "configurations", "programs"],
     "Every record, seed, batch position, transformation and process.",
     "Tests compare a few hashes within one process and do not relate entry points, batch positions and processes over many types.",
     ["xtructure/core/xtructure_decorators/hash.py", "xtructure/hashtable/hash_utils.py"],
     [{"name": "little-endian byte view, 32-bit mixing", "where": "hash.py"}],
     ["hash, hash_pair, *_with_uint32ed, bytes, uint32ed"],
     tech="TLA+ spec of an uninterpreted hash function (memo must stay functional) and of the byte/word views; observations from several processes validated by TLC")

prop("C19", "Batch shape is derived from the declared fields, always",
     "For any record the reported batch shape, structure kind (single, batched, unstructured) and length follow from the declared per-field shapes and the actual field shapes: a default or random record of batch shape S reports S, is single when S is empty and batched otherwise, and its default fields hold the declared fill values. "
     "After any sequence of rebuilding operations (field replacement, indexing, reshaping, stacking, tree mapping) the reported shape and kind are those of the current contents, never those of an ancestor; a pickled or copied record reports the same.",
     ["programs", "inputs", "configurations"],
     "Every declared layout (scalars, tensors, nesting), batch shape and sequence of operations that build new records from old ones.",
     "Tests check the shape of a few directly built instances, not after sequences of rebuilding operations that could carry stale derived data.",
     ["xtructure/core/xtructure_decorators/shape.py", "xtructure/core/xtructure_decorators/default.py", "xtructure/core/xtructure_decorators/structure_util.py", "xtructure/core/dataclass.py"],
     [{"name": "shape inference from leaf shapes with per-instance caching", "where": "shape.py"}],
     ["shape, structured_type, len, ndim, default_shape, default, random"],
     tech=TLA + "shape-inference spec; random programs that rebuild records validated step by step by TLC")

prop("C20", "Declared field schemas are enforced",
     "With validation enabled, constructing a record succeeds exactly when every array field has its declared dtype (as it is after conversion to an array) and a trailing shape equal to the declared field shape, every record field holds an instance of its declared class, and every declared validator accepts, and otherwise raises an error; without validation construction never alters the arrays given. "
     "A field declaration is accepted exactly when its width, packing, fill and shape arguments are consistent, and derived declarations (cloned, with prefixed or replaced shapes) keep every attribute not explicitly changed.",
     ["inputs", "configurations"],
     "Every declared layout and every assignment of array dtypes and shapes to its fields; every combination of declaration arguments.",
     "Tests try a few mismatches; nested, tensor and mixed-field mismatches and argument combinations are not enumerated.",
     ["xtructure/core/xtructure_decorators/validation.py", "xtructure/core/field_descriptors.py", "xtructure/core/field_descriptor_utils.py"],
     [{"name": "post-construction invariant check, descriptor argument checks", "where": "validation.py, field_descriptors.py"}],
     ["construction outcomes, declaration outcomes and attributes"],
     tech="decision-table spec in TLA+ enumerated by TLC; every enumerated case executed on real classes and validated by TLC")

prop("C21", "Strict selection and comparison act alike on every field",
     "Strict selection (where_no_broadcast) between two records of one class, by a condition array of every field's shape or by a record of conditions, takes each element of each field from the first record where the condition holds and from the second otherwise; a condition or second record of another shape or element type in any field, or of another class, is refused with an error instead of being broadcast or cast. "
     "Comparison with a tolerance says, for each element of each field, whether |a-b| <= atol + rtol*|b| with the tolerances given or the documented defaults (infinities equal only themselves; NaN equals NaN only when asked), and allclose holds exactly when every element of every field does. "
     "Records of different classes are never equal. Converting a record converts every field to the type asked for, keeping values it can hold, and questions about element types are answered from all fields.",
     ["inputs", "configurations"],
     "Every record layout, batch shape and content, every way one field can fail to fit, every tolerance, including special values.",
     "Tests try one happy path per operation; which field fails to fit and how, tolerance boundaries, special values and single-element differences in one nested field are not sampled.",
     ["xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/comparison_ops.py",
      "xtructure/core/xtructure_numpy/dataclass_ops/type_ops.py", "xtructure/core/xtructure_numpy/array_ops.py",
      "xtructure/core/xtructure_decorators/ops.py"],
     [{"name": "shape and type checks before selection; per-leaf comparison reduced over the tree", "where": "array_ops.py, comparison_ops.py, ops.py"}],
     ["results and errors of where_no_broadcast, isclose, allclose, ==, !=, astype, can_cast, result_type"],
     tech=TLA + "every emitted case (condition form x defect x field, value pair x tolerances) run on real records, all recorded events validated by TLC")

prop("C22", "Accelerator code paths keep every guarantee",
     "On a GPU or a TPU the library merges queue blocks, moves values, reserves table slots and packs records with kernels of its own, chosen by the device and by switches. Under every supported setting of those switches the queue, the table, deduplication, packed forms, views and hashes give the same answers as on a CPU with nothing set (except where a hash is documented to be taken from the packed form), and an unsupported value of a switch that is used is refused with an error. "
     "Every merge back end (sort, loop, parallel, and parallel with values, for every block size, unrolling and value packing) returns the ascending merge of its two ascending inputs, with each payload beside its key and nothing lost or repeated.",
     ["inputs", "configurations", "histories"],
     "Every combination of device and switches, every pair of sorted inputs and every history of operations.",
     "Tests run on a CPU, where none of these paths is ever taken.",
     ["xtructure/bgpq/merge_split/parallel.py", "xtructure/bgpq/merge_split/loop.py", "xtructure/bgpq/_merge.py", "xtructure/bgpq/_insert.py", "xtructure/hashtable/insert_triton.py",
      "xtructure/hashtable/insert_pallas.py", "xtructure/hashtable/insert.py", "xtructure/core/xtructure_decorators/aggregate_bitpack/kernels.py"],
     [{"name": "device and switch dispatch; Pallas kernels", "where": "insert.py, _merge.py, _insert.py, aggregate_bitpack/__init__.py, parallel.py, loop.py, insert_triton.py, insert_pallas.py, kernels.py"}],
     ["answers of all containers, packed words, hashes, merged keys and indices"],
     tech=TLA + "covering arrays of device settings answered by real processes whose Pallas kernels run in the Pallas interpreter; all merges of the model replayed; histories under the container specifications; all events validated by TLC")

prop("C23", "Parallel slot reservation is free of races",
     "When a batch is inserted on a GPU, one program per record looks for a slot while the others do the same. However their accesses to memory interleave, no two programs get the same slot or a slot that was taken, every served program gets a slot in the first bucket of its own probe sequence that had room, a program goes unserved only when all the buckets it may probe are full, buckets are filled from their lowest slot up, the occupancy afterwards is exactly what was taken, and all programs end without leaving the arrays. The table is then what some sequential insertion would have made it. "
     "Blocks of a parallel merge write disjoint parts of the result, which is the same merge in whatever order they run.",
     ["schedules", "inputs"],
     "Every interleaving of any number of programs, every prior occupancy, every probe start, step and limit.",
     "Tests never run these kernels; a race needs particular programs to meet in one bucket at particular points.",
     ["xtructure/hashtable/insert_triton.py", "xtructure/hashtable/insert.py", "xtructure/bgpq/merge_split/parallel.py"],
     [{"name": "atomic or on bucket occupancy", "where": "insert_triton.py:_make_reserve_slots_kernel"}, {"name": "fill levels from occupancy", "where": "insert.py"}, {"name": "merge path blocks", "where": "parallel.py"}],
     ["occupancy, places, served flags; tables after batched insertion; merged arrays"],
     tech=TLA + "protocol model refining one-step reservation, checked for every interleaving; its schedules replayed access by access on the real kernel functions; all outcomes validated by TLC")

prop("C24", "Printing shows the records it says",
     "Printing a single record shows every declared field, by name and in order, with its value, or the record's own text when its class defines one; options given to the printing method reach that text. "
     "Printing a batch shows each record the way it prints alone, in its place: a batch of rank two as a grid, any other in order on one line. Small batches are shown completely; when records are left out, those shown are the first and the last ones along each shortened axis, at least the documented number on each side, with exactly one mark between them. The class and the batch shape are named; data that is neither single nor a batch is said to be unstructured.",
     ["inputs"],
     "Every record class, with and without a text of its own, and every batch shape, including empty and very large ones.",
     "Tests print a few small batches and only look for substrings; which record stands in which cell of which shape is not checked.",
     ["xtructure/core/xtructure_decorators/string_format.py", "xtructure/core/xtructure_decorators/annotate.py"],
     [{"name": "choice of shown positions, layout as grid or line", "where": "string_format.py:get_str"}, {"name": "limits", "where": "annotate.py"}],
     ["text of str(x) and x.str(...)"],
     tech=TLA + "every emitted batch shape printed by the real code; the cells parsed from the text validated by TLC")

