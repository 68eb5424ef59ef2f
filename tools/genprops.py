#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that it stays easy to edit).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Stored blockchain reads back exactly as it was appended",
  "For every valid sequence of blocks appended to a freshly created store, a reader opened afterwards reports the same chain: block and transaction counts and hashes, the order and contents of every transaction's inputs and outputs, satoshi values, the output that each input spends, and every stored numeric field. The files that hold its numbers have room for a chain of the size Bitcoin has. Looking a block, transaction or output script up by hash leads to the same item as looking it up by height, and each address lists exactly the outputs paid to it, in chain order. Hashes that are not in the chain are reported as absent, and what lies beyond the chain's end is refused.",
  ["inputs", "histories", "configurations"],
  "every valid chain (any number of blocks, transactions, inputs, outputs, shared scripts, zero-output transactions, spends within a block or across blocks), both supported transaction indexing modes, any set of stored numeric fields",
  "The chainstorage package has no test that compiles; only the first Bitcoin blocks were ever checked by hand against a live node.",
  ["chainstorage/", "wordfile/", "indexedhashes3/", "intarrayarray/", "transactionindexing/"],
  [("append of a block into parallel word files", "chainstorage/concreteappendablechain.go"),
   ("readers over the same files", "chainstorage/concretereadablechain.go"),
   ("parent maps", "chainstorage/concretereadablechain.go")],
  [("column files", "one number per block, transaction, input or output", "chainstorage/concreteappendablechainfactory.go")],
  ["chainreadinterface.IBlockChain", "chainreadinterface.IHandleCreator", "chainstorage.IParents"])

p("C02", "Closing, reopening and continuing never changes the stored chain",
  "A chain appended in several sessions, closed and reopened between any two blocks, is the same chain that a single session would have stored: no earlier block is lost, overwritten or renumbered, and the same holds for the list of hashes gathered before indexing. Opening the store read-only, any number of times and at any point between sessions, changes nothing and shows the blocks appended so far as they were appended (how many blocks and transactions there are is taken from the hash lists, all of which were indexed beforehand).",
  ["histories", "configurations"],
  "every way of cutting a valid chain into append sessions, with reads, syncs and read-only openings between them",
  "No test opens a chain store twice; the reopening path is exercised only by hand in long ingestion runs.",
  ["chainstorage/concreteappendablechainfactory.go", "chainstorage/concretehasheschainfactory.go", "chainstorage/concretehasheschain.go"],
  [("open existing files and continue at their end", "chainstorage/concreteappendablechainfactory.go"),
   ("hash list reopen", "chainstorage/concretehasheschainfactory.go")])

p("C03", "Both feeding interfaces and both passes store the same thing",
  "Feeding the same blocks through the object-style interface and through the handle-style interface produces the same stored chain and the same gathered hash lists. The stored result does not depend on which of the two was used for any block.",
  ["inputs", "configurations", "histories"],
  "every valid chain, each block fed through either interface, in both the hash-gathering pass and the main pass",
  "There are two hand-written copies of the whole append path and no test compares them.",
  ["chainstorage/concreteappendablechain.go", "chainstorage/concretehasheschain.go", "intrinsicobjectscri/", "intrinsicobjectschi/"],
  [("object-style append", "chainstorage/concreteappendablechain.go AppendBlock"),
   ("handle-style append", "chainstorage/concreteappendablechain.go AppendBlockChi")])

p("C04", "Parsing a binary block recovers exactly the block that was serialised",
  "For every well-formed serialised block, the parser reports the header fields, block hash, previous hash, and for each transaction its id, witness flag, size, stripped size, weight, virtual size, inputs, output values and output scripts, exactly as defined by the Bitcoin consensus serialisation. The result for one block does not depend on which blocks were parsed before or concurrently, and every input and output is attributed to its own transaction.",
  ["inputs", "histories", "schedules"],
  "every well-formed block: any version, legacy and segwit transactions mixed, counts and script lengths across all compact-size encodings, empty scripts, any witness stacks",
  "The tests parse only the genesis block.",
  ["intrinsicobjects/binaryblock.go", "intrinsicobjects/binarytransaction.go", "intrinsicobjects/multitransactionstorage.go"],
  [("byte walk with compact sizes and double SHA256", "intrinsicobjects/binarytransaction.go ParseBinaryTransaction"),
   ("shared storage for inputs, outputs and scripts", "intrinsicobjects/multitransactionstorage.go")])

p("C05", "The JSON form and the binary form of a block give the same block",
  "Parsing the JSON that a Bitcoin node returns for a block gives the same block hash, previous hash, time, size, weight, transaction ids, sizes, input references, output scripts and satoshi amounts as parsing the binary form of that block. Amounts are exact to the satoshi for every value up to 21 million coins.",
  ["inputs"],
  "every well-formed block and the JSON rendering of it in the format of the node's REST interface, including every satoshi amount",
  "The JSON test parses one block and compares a few fields; decimal conversion and the agreement of the two parsers are never checked.",
  ["intrinsicobjects/jsonblock.go", "intrinsicobjects/jsontransaction.go", "intrinsicobjects/binaryblock.go"],
  [("JSON decoding and conversion", "intrinsicobjects/jsonblock.go"), ("amount conversion", "intrinsicobjects/jsontransaction.go")])

p("C06", "A whole ingestion run stores the node's chain whatever the timing",
  "When the requested blocks, which must be fewer than the node has, are fetched by any number of workers, with responses delayed and reordered arbitrarily and with transient failures of block requests within the retry limit, the gather, index and store phases finish and leave exactly the chain served by the node for the requested number of blocks. The result is the same for the JSON and binary formats and for both feeding interfaces, and the node is never asked for anything it does not have.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "every served chain, every number of requested blocks within it, worker counts, response delays, and up to two consecutive failed or garbled-status responses per block request (header requests succeed)",
  "The pipeline tests need a live Bitcoin node and years of blocks, so none of it runs in the test suite.",
  ["jobs/intrinsicparallel.go", "corereader2/", "concurrency/", "intrinsicobjectscri/chain.go", "intrinsicobjectschi/chain.go"],
  [("block hash streaming by header batches", "corereader2/blockhashes.go"),
   ("parallel fetch and parse with retries", "corereader2/getparseblocksbinary.go"),
   ("resequencing", "concurrency/sequencercontainer.go"), ("three phases", "jobs/intrinsicparallel.go")],
  None, ["HTTP transport of the shared client"])

p("C07", "Derived chain values follow the consensus definitions at every height",
  "While blocks are fed in sequence, each block is reported with the median of the last eleven timestamps (fewer near the start, upper middle for even counts), coinbase transactions are reported with no inputs, all others with every input and output in order, and each output's address is the hash of its script. Transactions are numbered consecutively along the chain, and the indexer is told each block's first transaction, each transaction's block and each transaction's hash exactly once, in order; a block that does not follow its predecessor is never accepted.",
  ["inputs", "histories"],
  "every sequence of blocks with arbitrary timestamps and transaction counts through both feeding interfaces",
  "No test exercises the one-block adaptors at all.",
  ["intrinsicobjectscri/", "intrinsicobjectschi/"],
  [("sliding window median", "intrinsicobjectscri/block.go, intrinsicobjectschi/block.go"), ("transaction numbering", "intrinsicobjectscri/block.go, intrinsicobjectschi/block.go")])

p("C08", "Out-of-order work is resequenced without loss, duplication or deadlock",
  "Whatever order numbered items arrive in, they come out exactly once each and in strictly increasing order, and the output is closed after the input is; a missing number is never silently skipped. When the producer waits for the backlog signal before each item, the pipeline always finishes and the backlog never exceeds the limit by more than the items already in flight. A pool of workers processes every task exactly once and reports its own error back.",
  ["schedules", "inputs"],
  "every arrival permutation, start number, backlog limit, worker count and interleaving of producer, workers and consumer",
  "There is no test of the concurrency package; schedules cannot be sampled by a fixed example.",
  ["concurrency/"],
  [("map of parked items and next number", "concurrency/sequencercontainer.go"), ("backlog condition variable", "concurrency/sequencercontainer.go"),
   ("worker loop", "concurrency/workerpool.go")])

p("C09", "A bulk-built hash index finds every hash and only those",
  "After any list of hashes has been bulk indexed, looking up each hash returns the position of its first occurrence, looking up that position returns the hash, hashes that were not listed are reported as absent, and a position beyond the list is refused. The index's check of itself accepts it, and refuses a list that names a hash the index does not hold. This holds for every choice of indexing parameters, memory budget, thread count and indexing method, for hashes that collide in any of their parts, and when an index is rebuilt over an older one.",
  ["inputs", "configurations", "schedules"],
  "every hash list (skewed, shared prefixes or suffixes, repeats, bins overflowing, far more or fewer hashes than estimated), bin count, entry width, memory budget and thread count",
  "The tests only print parameter estimates; building and looking up needs large external data files.",
  ["indexedhashes3/"],
  [("binning by leading bits", "indexedhashes3/params.go, binnum.go"), ("sort and deduplicate within a bin", "indexedhashes3/binbytes.go"),
   ("overflow files", "indexedhashes3/overflowfiles.go"), ("interpolating search", "indexedhashes3/binbytes.go")])

p("C10", "Bulk index files do not depend on threads, memory or method",
  "Indexing the same hash list with the same parameters produces the same index files and answers whether it is done in one pass or many, by the adaptive or the fixed-pass method, with any number of threads and any schedule. Reading an index held in memory gives the same answers as reading it from disk, and index parameters written to disk read back unchanged.",
  ["schedules", "configurations", "inputs"],
  "every hash list, pass partition, memory budget, thread count and scheduling of the workers",
  "No test runs the bulk indexers; independence from the schedule needs many runs of the same input.",
  ["indexedhashes3/"],
  [("multi-pass preloader", "indexedhashes3/multipasspreloader.go"), ("adaptive preloader", "indexedhashes3/adaptivepass.go"),
   ("parameters JSON", "indexedhashes3/params.go")])

p("C11", "An incrementally appended hash store numbers and finds every hash",
  "Each appended hash is given the next number, can from then on be found by hash (at its first position) and by number, and the count equals the number appended; absent hashes are reported as absent, and numbers not yet given are refused. This holds for every store kind and parameter choice, for hashes colliding in the bits used for lookup, and after closing and reopening the store, including read-only.",
  ["histories", "inputs", "configurations"],
  "every interleaving of appends, lookups by hash and number, syncs, closes and reopenings on each of the incremental stores and their size parameters",
  "The tests append one or two hundred hashes with one fixed parameter set and never reopen.",
  ["indexedhashes/", "indexedhashes3/hashstore.go"],
  [("lookup file and collision chunks", "indexedhashes/hashstore.go"), ("linear store", "indexedhashes/basichashstore.go"),
   ("in-memory map", "indexedhashes/memoryindexed.go"), ("live bins", "indexedhashes3/hashstore.go")])

p("C12", "Evenly-binned bulk index finds every hash and only those",
  "After a list of hashes has been bulk indexed into evenly sized address bins, every hash is found at its own position, every position gives back its hash, hashes not listed are reported as absent and positions not filled are refused, both through the whole-file index and through the store opened from disk. This holds for any estimate of the number of hashes, number of passes and distribution of the hashes, including the extreme ends of the hash range.",
  ["inputs", "configurations"],
  "every list of hashes, hash-count estimate and digits-per-folder setting, including hashes of all zero and all one leading bits",
  "The one test of this index that reads its result back fails at the pinned commit, and it uses one random list.",
  ["indexedhashes/uniform.go"],
  [("address bin start and overflow files", "indexedhashes/uniform.go"), ("preloader", "indexedhashes/preloader.go, multipasspreloader.go")])

p("C13", "Fixed-width number and hash files behave as plain arrays",
  "For every word width from one to eight bytes, a number file reads back the last value written at each position, grows only by appending or writing past its end (positions skipped over read as zero), reports its exact length, and is unchanged by how reads, writes, appends, flushes, closes and reopenings are interleaved. Creating it anew empties it, or fills it with as many zeros as asked for. The plain, append-optimised, memory-shadowed and memory-mapped variants are indistinguishable through their results, and the same is true of hash files.",
  ["histories", "inputs", "configurations"],
  "every operation sequence, word width, value and variant of the file, with reopening at any point",
  "The tests write a handful of values and read them back once with one width.",
  ["wordfile/", "memfile/", "indexedhashes/"],
  [("little endian fixed width words", "wordfile/"), ("append buffer", "memfile/"), ("memory shadow", "wordfile/")])

p("C14", "Keyed number lists survive caching, flushing and reopening",
  "A store of number lists keyed by number returns for each key exactly the values appended to that key, in order, whatever order keys were visited in, whatever was evicted from memory in between, and after flushing and reopening. Keys never written read as empty, and every list of every element width encodes and decodes to itself.",
  ["histories", "inputs", "configurations"],
  "every sequence of appends and reads over keys in the same or different files, flushes, reopenings, element widths and cache limits",
  "The one compiling test writes a single small array; the keyed store's own test does not compile.",
  ["intarrayarray/", "numberedfolders/"],
  [("one file per bucket of keys", "intarrayarray/intarraymapstore.go"), ("cache trimming", "intarrayarray/cachedintarraymapstore.go")])

p("C15", "Numbers map to folders and files one-to-one",
  "Two numbers are stored in the same file exactly when they fall in the same bucket; the file's reported first number is the first number of that bucket and the position inside it is the remainder. Folders nest by groups of leading digits of the bucket, numbers that share those digits share the folder, and no file's path is the path of another's folder, for any digit settings and any non-negative number.",
  ["inputs", "configurations"],
  "all digit settings and all non-negative numbers",
  "The package's only test does not compile; paths for large numbers and odd settings are never checked.",
  ["numberedfolders/"],
  [("decimal digit grouping", "numberedfolders/numberedfolders.go")])

p("C16", "The tiered hash store finds every hash in every tier, across merges",
  "In the tiered store each appended hash gets the next number and is found by hash and by number for ever after, through any number of merges into lower tiers, for hashes sharing any prefix. Hashes never appended are reported as absent, and later changes to a caller's buffer never change the store.",
  ["histories", "inputs", "configurations"],
  "every append history and tier configuration (capacities, prefix and reassurance lengths) long enough to merge through several tiers, with hashes that share prefixes and reassurance bytes",
  "The tests bake one tier and walk it with random hashes; they never look anything up through the store after a merge.",
  ["weddingcakeback/", "weddingcakefront/"],
  [("top tier map", "weddingcakeback/tiertop.go"), ("merge into the tier below", "weddingcakeback/donutforestwrite.go"),
   ("lookup in a written tier", "weddingcakeback/tierbelow.go")])

p("C17", "A compact hash tree finds every inserted hash and rejects others",
  "A compact tree built from any set of distinct hashes leads each inserted hash to its own number, in memory and in its written form alike, whatever prefixes the hashes share. A hash that was not inserted is never matched when whole hashes are compared; where only some bytes are compared, any match agrees with the stored hash in all of those bytes. The reported counts of hashes, nodes and leaves and the reported shape are those of the tree, identifiers of every width decode to what was encoded, and an identifier too large for its width is refused.",
  ["inputs", "configurations"],
  "every set of hashes, adversarial prefixes, tree sizes from empty to tens of thousands, prefix and reassurance lengths and identifier widths",
  "The tests use random hashes, which never share more than three bytes, and print rather than assert node shapes.",
  ["weddingcake/", "weddingcakeback/singletree.go", "weddingcakeback/hashidconversions.go"],
  [("node formats by fan-out", "weddingcake/nodeformat.go, treeshape.go, treelayoutdesigner.go"), ("tree insertion", "weddingcake/shallowtree.go, weddingcakeback/singletree.go"), ("written form of a tree", "weddingcake/chunk.go, chunklevel.go")])

p("C18", "The live tier and chunked node files keep everything written",
  "The live tier of the hash cake numbers hashes in order of arrival, one number for each arrival, finds each by hash and by number (a repeated hash at one of its places, always the same one), reports others as absent, refuses numbers out of range, and is the same after being closed and reopened at any point, including read-only. Chunked node files read back through memory mapping return every written byte and answer alike however many chunk files there are, and reading them again gives the same chunks.",
  ["histories", "inputs", "configurations"],
  "every history of appends, lookups and reopenings of the live tier, and every split of node data into chunks",
  "Tests use one chunk and never reopen a partly filled tier.",
  ["weddingcake/"],
  [("append file and map", "weddingcake/tierzero.go"), ("chunk files", "weddingcake/chunkfiles.go")])

p("C19", "The prefix-tree index returns the right position for every hash",
  "Built from any list of hashes, the prefix-tree index returns for every listed hash the position of its first occurrence, and says of a repeated hash that it is repeated. Its written form gives the same answers as the in-memory form; with its last levels left out it either gives the same answer or says that levels are missing. A list that does not fit the tree's identifiers is reported as not fitting, and node layouts chosen for space never change an answer.",
  ["inputs", "configurations"],
  "every list of hashes: shared prefixes up to all bytes, repeats, fan-outs from one to 256 at every level",
  "Its only test needs a data file that is not in the repository.",
  ["indexedhashestree/"],
  [("shallow tree of nodes", "indexedhashestree/shallowtree.go"), ("node layouts", "indexedhashestree/multiplefixednodesize.go")])

p("C20", "Every route through a chain visits the same blocks and transactions",
  "Walking forward from the first block or transaction visits every one exactly once in order and ends with a recognisably invalid handle; walking backward retraces it; the latest item is the last one; and an item reached by height, by hash, by position or by parent link is the same item. Going from any input to its source output, and from any input or output to its transaction and block, agrees with going forward. Readers opened separately may be used at the same time, and each sees the chain as if it were alone.",
  ["inputs", "configurations"],
  "every stored chain and the built-in sample chain, every item in it and every pair of routes to it",
  "The tests follow fixed routes through a fixed six-transaction chain and none through a stored one.",
  ["tinychain/", "chainstorage/", "chainreadinterface/"],
  [("handles carrying height or hash", "chainstorage/handles.go"), ("parents", "chainstorage/concretereadablechain.go"), ("sample chain", "tinychain/")])

p("C21", "Hashes and their text forms convert without loss",
  "Every hash converted to text and back is unchanged, hexadecimal digits of either case are understood, and text of the wrong length is rejected. The hash of bytes, of a text and of a number is the SHA-256 of those bytes (of the number's eight bytes, lowest first). Each block is requested from the node by the byte-reversed lower-case hexadecimal of its stored hash, once for each hash asked for, and each answer keeps the number of its request.",
  ["inputs"],
  "all 32-byte hashes, all lengths of text, all bytes to be hashed, and any list of blocks requested in either format",
  "Only the genesis hash is converted in a test; the record tests do not compile.",
  ["indexedhashes/", "corereader2/utils.go", "corereader2/getparseblocksbinary.go"],
  [("hex conversion", "indexedhashes/hexstring.go"), ("hash of bytes, text, number", "indexedhashes/hashofbytes.go"), ("requests to the node", "corereader2/getparseblocksbinary.go")])

p("C22", "What a sync stored survives a crash, and no failed write or read is silent",
  "After a sync reports success, a copy of the files taken at any later point opens and holds everything that was stored before the sync, whatever was written after it. When there is no room to write, or no file handle is left to open a file with, the operation, the sync or the close that is affected reports an error or stops the program: it never reports success for something that was not stored, never answers a lookup with a wrong result, and a list or store that refused an addition keeps what it had.",
  ["histories", "crash_points", "fault_sequences"],
  "every history of additions, syncs and lookups; every crash point after a sync; every point at which the disk fills or file handles run out. A keyed store whose lookup table is kept in memory writes that table when it is closed, so for it only the close counts",
  "No test copies a store before it is closed, and none makes a write, a read or an open fail.",
  ["memfile/", "wordfile/", "intarrayarray/", "indexedhashes/", "indexedhashes3/", "weddingcakefront/", "weddingcakeback/", "chainstorage/"],
  [("sync of every file of a chain", "chainstorage/concreteappendablechain.go"), ("write-behind files", "memfile/appendoptimized.go"),
   ("number lists", "intarrayarray/cachedintarraymapstore.go"), ("bins and overflow files", "indexedhashes3/overflowfiles.go")])

p("C23", "A failed or interrupted ingestion is never taken for a finished one",
  "An ingestion that reports success has stored exactly the node's chain. When the node answers badly or has fewer blocks than asked for, when the process dies at any request, when the disk fills or file handles run out, the run ends, and does not report success unless what it stored is right all the same. A later run against a healthy node, from the first phase or from the first phase that was not completed, succeeds and stores exactly the node's chain.",
  ["histories", "crash_points", "fault_sequences"],
  "every chain, every request at which the node misbehaves or the process dies, every point at which the disk fills or file handles run out, then a healthy run from the phases not completed",
  "No test runs the ingestion at all, since it needs a node.",
  ["jobs/", "corereader2/", "chainstorage/"],
  [("three phases", "jobs/intrinsicparallel.go"), ("requests and retries", "corereader2/")])

p("C24", "Work waiting for memory is held back above the limit and let on after",
  "While the live heap is at or above the limit no waiting worker is let on and the limiter says that there is no free memory; each report that memory was freed, made while the heap is below the limit, lets on at least one worker if any waits, and a report made while it is not lets on none; once memory is free every waiting worker is let on after enough reports. The last heap size given is the one that was measured.",
  ["schedules", "histories"],
  "every limit, number of workers, order of waits and reports of freed memory, and heap size above or below the limit",
  "Its tests do not vary the limit, the number of waiting workers or the order of reports.",
  ["memblocker/"],
  [("waiting and waking", "memblocker/memblocker.go")])
p("C25", "Finished work gives back its files, memory maps, goroutines and answers",
  "Once a store, a list, a map, an index or a tier has been closed, or an indexing or an ingestion phase has ended without an error, the process holds none of its files open or mapped into memory, and within seconds no goroutine begun by the work remains, whatever was done before and however the work was divided among threads. While a store is open, and while a reader is asked, the same file is not held again and again. Every answer of the node, also one that reports a failure and is asked for again, is read to its end or closed, so that its connection can be used for the next.",
  ["histories", "schedules", "fault_sequences"],
  "every history of additions, syncs, lookups and reopenings, every kind of store, every number of threads, and every sequence of failed and repeated requests of a run that succeeds. What is held after an error, and what a reader of a whole chain holds (it cannot be closed), is left open",
  "Files that were forgotten are closed by the garbage collector sooner or later, so that nothing fails in a test of ordinary size.",
  ["wordfile/", "memfile/", "intarrayarray/", "indexedhashes/", "indexedhashes3/", "weddingcakefront/", "weddingcakeback/", "chainstorage/", "jobs/", "corereader2/", "concurrency/"],
  [("closing of every file of a chain", "chainstorage/concreteappendablechain.go"), ("bin starts after indexing", "indexedhashes3/adaptivepasspreloader.go"),
   ("answers of the node", "corereader2/getparseblocksbinary.go"), ("workers", "concurrency/")])

p("C26", "Stores in separate folders do not influence one another",
  "Whatever is done with several stores, lists, maps, indexes or chains in one process, each in a folder of its own - in turns, or at the same time from different goroutines - each ends up with byte for byte the files it would have had alone, answers as it would have alone, and no data race occurs. In particular a second chain can be stored in the process that stored a first, without any resetting in between.",
  ["histories", "schedules", "configurations"],
  "all combinations of kinds of store and of their parameters, and all interleavings of what is done with them. One store, or one reader, used by several goroutines at once is not claimed",
  "Every test works on one store at a time and the chain tests reset the package's variables by hand.",
  ["wordfile/", "memfile/", "intarrayarray/", "numberedfolders/", "indexedhashes/", "indexedhashes3/", "weddingcakefront/", "weddingcakeback/", "chainstorage/"],
  [("order checks of a chain", "chainstorage/concreteappendablechain.go"), ("parameters kept beside an index", "indexedhashes3/hashstorecreator.go"),
   ("number lists", "intarrayarray/intarraymapstore.go"), ("shared node buffers", "weddingcakeback/donutforestread.go")])

p("C27", "A block that does not belong in the chain is refused",
  "Blocks fed to a chain store that do not follow one another, a first block that is not Bitcoin's genesis block, a block whose hash was not gathered beforehand or that stands at another block's place, an output to an address that was not gathered, an input from a transaction that is not there, a transaction that was not gathered (where the store goes by hashes), and values to be stored that no block or transaction has, are refused with an error (or a panic that stops the run) and never stored as something else. The blocks before the wrong one are not refused, and after the refusal the chain before it reads as it was and can be continued with the right block. Handing the store the same block twice, or leaving one out, without going by the holder that checks the sequence, is not claimed.",
  ["inputs", "histories", "configurations"],
  "all chains with all blocks that do not fit into them",
  "The tests feed the store blocks that are right, in the right order.",
  ["chainstorage/concreteappendablechain.go", "intrinsicobjectscri/chain.go", "intrinsicobjectschi/chain.go"],
  [("blocks that do not follow one another", "intrinsicobjectscri/chain.go"), ("blocks that do not follow one another, by handles", "intrinsicobjectschi/chain.go"),
   ("unknown hashes", "chainstorage/concreteappendablechain.go"), ("block hashes", "indexedhashes3/")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
