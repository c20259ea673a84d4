#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

RT = "pymllm/mem_cache/radix_cache.py"; MP = "pymllm/mem_cache/memory_pool.py"
MR = "pymllm/orchestrator/model_runner_process.py"; SC = "pymllm/orchestrator/scheduler_process.py"

prop("P01", "Serving KV slots: one owner at a time, none leaked, none freed while in use",
 "Across any history of requests being admitted, prefilled, decoded, finished, aborted and evicted, every physical KV-cache slot is at each step either free or owned by exactly one holder (a live request or the shared prefix cache); no slot is handed out while someone still reads it, none is returned twice, and the reserved padding slot is never handed out. When all requests are gone, every slot is either free or held by the prefix cache, and evicting the cache returns the pool to fully free.",
 ["histories", "configurations"],
 "All sequences (to a depth bound) of submit/step/abort events over a small set of prompts that share prefixes, for pools from too-small to ample, with and without the prefix cache.",
 "Tests build the pieces in isolation with a single request; the ownership handover between request, allocator and prefix cache only breaks for particular orders of overlap, finish and eviction.",
 [MR, MP, RT, "pymllm/mem_cache/chunk_cache.py", SC],
 [("allocation and eviction for a prefill/decode step", MR+":_allocate_extend,_allocate_decode,_alloc_kv_with_eviction"),
  ("handover of slots to the prefix cache", MR+":_insert_into_radix_cache,_free_rid_resources"),
  ("free list", MP+":TokenToKVPoolAllocator")],
 ["allocator free lists", "slot table rows of live requests", "slots referenced by cache nodes"],
 [("slot owner", "free / request r position p / cache node", MP)])

prop("P02", "Serving result is independent of batching, prefix reuse, eviction and memory",
 "Whatever other requests run concurrently, whatever prefixes were cached or evicted before, and however requests are batched, each request's attention reads exactly the keys/values of its own tokens at their own positions, so with greedy decoding it yields exactly the tokens it would yield alone on an empty server.",
 ["histories", "configurations"],
 "All submit/step/abort histories to a depth bound over prompts sharing prefixes, over cache on/off, page sizes, pool sizes and batch limits, against a position- and context-sensitive stand-in model.",
 "Tests never run two requests through the real batch path; a stale slot, a wrong prefix match or a wrong position only shows for particular interleavings of reuse and eviction.",
 [MR, SC, RT, MP, "pymllm/executor/model_runner.py"],
 [("prefix match and reuse", MR+":_allocate_extend"), ("prefix match", RT+":match_prefix"),
  ("batch tensors", "pymllm/executor/model_runner.py:prepare_forward_batch_extend,prepare_forward_batch_decode")],
 ["tokens returned per request", "KV slots gathered by the forward pass"])

prop("P03", "Every request ends exactly once, in order, with exactly the tokens generated",
 "Each submitted request gets exactly one final result: its output is the generated tokens up to and including the first stop token, or exactly the requested maximum, with the matching finish reason (or abort if it was aborted); streamed increments concatenate to exactly that output with nothing lost, repeated or sent after the end. An aborted request gets at most that one final result and no output after it. A request that fits the configured limits is eventually served; one that can never be served (empty, longer than the limits, or with sampling parameters that are not usable numbers) is ended with an abort; and no request is dropped or makes the server stop serving others.",
 ["histories", "schedules", "configurations"],
 "All arrival/step/abort interleavings to a depth bound over streaming and non-streaming requests, stop tokens, length limits 1..k and batch/token limits.",
 "Tests check fixed single-request runs; lost or duplicated increments and stuck requests need particular interleavings of arrival, abort, finish and batch composition.",
 [SC, "pymllm/engine/io_struct.py"],
 [("scheduling loop", SC+":get_next_batch_to_run,process_batch_result,stream_output"), ("stop conditions", SC+":Req.check_finished"), ("abort", SC+":_abort_request")],
 ["messages sent to the detokenizer"])

prop("P04", "Scheduler limits and token budget stay exact over any history",
 "The number of concurrently running requests, the tokens prefilled in one step and the KV tokens in use never exceed the configured limits, and the token budget the scheduler charges returns to zero when all requests are gone, never drifting with prefix hits, aborts or early finishes. Within the limits admission is fair and complete: a waiting request that fits is admitted, and none is overtaken by a later one that needs at least as much.",
 ["histories", "configurations"],
 "All arrival/step/abort histories to a depth bound, over limits at, below and above the demand.",
 "A drifting budget needs several requests to come and go with cache hits before admission is wrong; no test runs such a history.",
 [SC], [("admission", SC+":get_next_batch_to_run"), ("budget release", SC+":_free_req_resources"), ("prefix correction", SC+":process_batch_result")],
 ["batches formed", "budget counter at quiescence"], [("used tokens", "tokens charged against the budget", SC)])

prop("P05", "Prefix cache returns the longest stored prefix with its own slots",
 "For any sequence of insertions, lookups and evictions, a lookup returns the longest page-aligned prefix of the query that is still stored under the same namespace, with for each token exactly the slot stored for that whole prefix, never a slot of a different prefix or namespace; an insertion reports exactly how much was already present and stores the rest.",
 ["histories", "inputs", "configurations"],
 "All operation sequences to a depth bound over a small alphabet of keys (including keys that are prefixes of, diverge inside, or extend each other), page sizes and namespaces.",
 "Tests only sample a few fixed keys; splits inside an edge combined with later inserts and evictions are never enumerated.",
 [RT, "pymllm/mem_cache/base_prefix_cache.py"],
 [("lookup", RT+":match_prefix"), ("insert", RT+":insert"), ("edge split", RT+":_split_node")],
 ["indices and prefix_len returned"], [("tree", "set of stored prefixes and their slots", RT)])

prop("P06", "Prefix cache eviction spares locked entries and keeps exact accounts",
 "A cached entry that a running request holds locked is never evicted, unlocked entries are evicted least-recently-used first and from the end of prefixes, eviction frees at least what was asked whenever that much is evictable, and each freed slot is released exactly once. The reported evictable and protected sizes always equal the actual number of unlocked and locked cached tokens.",
 ["histories", "configurations"],
 "All sequences of insert/match/lock/unlock/evict to a depth bound.",
 "Accounting errors accumulate over particular orders of split, lock and evict and are invisible to single-operation tests.",
 [RT], [("lock counting", RT+":inc_lock_ref,dec_lock_ref"), ("eviction", RT+":evict"), ("size accounting", RT+":_add_leaf,_delete_leaf")],
 ["evictable_size, protected_size, slots passed to free"], [("lock count", "requests holding a node", RT)])

prop("P07", "Sliding-window prefix cache keeps window-safe matches and exact slots",
 "With a sliding attention window, a lookup returns a prefix only if every slot of the last window's worth of tokens still holds its window KV; slots are released exactly once, an entry whose window is locked is not released, and the window accounting equals the actual state.",
 ["histories", "configurations"],
 "All sequences of insert/match/lock/unlock/evict (both kinds) to a depth bound, windows 1..4.",
 "No test exercises the window mode at all beyond construction; tombstone handling depends on multi-step histories.",
 [RT], [("window-aware lookup", RT+":_match_swa"), ("window-aware insert", RT+":_insert_swa"), ("tombstones", RT+":_tombstone_node,evict")],
 ["match results, slots freed"])

prop("P08", "Hybrid (recurrent-state) prefix cache pairs each prefix with its own state",
 "A recurrent state found in the hybrid cache for a looked-up prefix is always the state stored for exactly that prefix, never of a shorter or longer one, and is reported present exactly when it is; the lookup itself returns the longest stored prefix with its own slots. KV slots and state slots are each released exactly once, never while locked, and reported sizes equal the actual contents; every operation terminates.",
 ["histories", "configurations"],
 "All sequences of insert (with/without state)/match/lock/unlock/evict to a depth bound.",
 "Not exercised by any test; pairing errors need splits and evictions in particular orders.",
 ["pymllm/mem_cache/mamba_radix_cache.py", MP],
 [("lookup", "pymllm/mem_cache/mamba_radix_cache.py:match_prefix"), ("insert", "pymllm/mem_cache/mamba_radix_cache.py:insert"), ("evict", "pymllm/mem_cache/mamba_radix_cache.py:evict")],
 ["match results, freed KV and state slots"])

prop("P09", "KV slot allocators never hand out a slot that is in use",
 "For any sequence of allocations, releases, grouped releases and resets, slots handed out and not yet returned are pairwise distinct and within the pool, an allocation fails only if fewer slots are free than asked, failing changes nothing, and everything returned becomes available again.",
 ["histories", "configurations"],
 "All alloc/free/group sequences to a depth bound over small pools, page sizes 1..3 and both merge policies; likewise request-slot and recurrent-state pools.",
 "Fixed-sequence tests cannot cover the interaction of deferred merging, grouping and paging.",
 [MP], [("token slots", MP+":TokenToKVPoolAllocator"), ("request slots", MP+":ReqToTokenPool"), ("recurrent-state slots", MP+":GDNPool")],
 ["returned indices, available_size"])

prop("P10", "Streaming detokenization adds up to the one-shot text",
 "For any tokenization of any text, including characters split across tokens, and any batching of tokens into increments, the text increments delivered for a request concatenate to exactly the text of its full output, each request's text never mixes with another's, and per-request state is gone once it finished.",
 ["inputs", "histories"],
 "All groupings of token sequences into increments over byte-level vocabularies with multi-byte characters split across tokens, for up to two interleaved requests.",
 "Sampled ASCII tests never split a character at an increment boundary.",
 ["pymllm/orchestrator/detokenizer_process.py"],
 [("increment decoding", "pymllm/orchestrator/detokenizer_process.py:_detokenize")], ["text deltas sent to the front end"])

prop("P11", "Reasoning split does not depend on how the text was chunked",
 "Splitting model output into reasoning and answer gives, for every way of cutting the text into chunks (also inside a marker), the same reasoning and answer as parsing it whole; no character is lost, duplicated or leaked from one side to the other.",
 ["inputs", "schedules"],
 "All texts to a length bound over an alphabet of marker fragments and text, times all ways to chunk them, for every registered format.",
 "Tests pick a handful of chunkings; markers cut at every position and text after them are quantified over.",
 ["pymllm/parsers/reasoning_parser.py"], [("streaming split", "pymllm/parsers/reasoning_parser.py:parse_stream_chunk"), ("one-shot split", "pymllm/parsers/reasoning_parser.py:parse_non_stream")], ["returned parts"])

prop("P12", "Tool-call extraction does not depend on how the text was chunked",
 "Extracting tool calls gives, for every way of cutting the text into chunks, the same calls (same order, names and arguments) and the same plain text as parsing it whole; streamed argument fragments concatenate to the complete argument text, and malformed calls never crash the stream or swallow the text around them.",
 ["inputs", "schedules"],
 "All texts to a bound over marker fragments, well-formed and malformed calls, times all chunkings, for every registered format.",
 "Tests pick a handful of chunkings and well-formed calls.",
 ["pymllm/parsers/tool_call_parser.py"], [("streaming extraction", "pymllm/parsers/tool_call_parser.py:parse_stream_chunk"), ("one-shot extraction", "pymllm/parsers/tool_call_parser.py:parse_non_stream")], ["returned items"])

prop("P13", "Front end routes each result to its own request exactly once",
 "Whatever the order in which requests arrive, results come back and clients abort, every waiting caller receives all of its own increments in order and its one final result, never another request's, a duplicate id cannot hijack a live request, and state of finished or aborted requests is released so that callers always wake up.",
 ["schedules", "histories"],
 "All interleavings of add/receive/abort/consume events to a depth bound over up to three requests, on the real event loop.",
 "Tests issue requests one by one; hijacking, loss and hangs need a particular interleaving.",
 ["pymllm/orchestrator/request_response_process.py", "pymllm/engine/launch.py", "pymllm/engine/io_struct.py"],
 [("state table", "pymllm/orchestrator/request_response_process.py"), ("wait loops", "pymllm/engine/launch.py:_wait_for_final_result,_stream_results")], ["results seen by callers, remaining state"])

prop("P14", "A batched request means the same as its items submitted one by one",
 "Splitting a batched generation request yields, for every combination of single and per-item fields, items that carry exactly their own prompt, parameters, media and unique id, equal to what the user would have submitted individually; inconsistent batches are rejected.",
 ["inputs", "configurations"],
 "All combinations of field shapes (absent / shared / per-item list) for batch sizes 1..3.",
 "Tests cover one combination; field fan-out errors hit specific combinations.",
 ["pymllm/engine/io_struct.py"], [("fan-out", "pymllm/engine/io_struct.py:GenerateReqInput.__getitem__"), ("normalisation", "pymllm/engine/io_struct.py:GenerateReqInput.normalize_batch_and_arguments")], ["item objects"])

prop("P15", "Tensor transport between processes delivers values intact and in order",
 "Every request placed on the inter-process queue arrives exactly once, in order, with identical metadata and tensor values whatever its nesting; a pooled staging buffer is never reused before its consumer is done, never overlaps another live one, and all of it becomes available again after consumption. A request that cannot be prepared for transport ends alone and does not stop the others.",
 ["histories", "inputs"],
 "All put/get sequences to a depth bound over nested payload shapes; all allocate/recycle orders of the staging pool.",
 "Tests send a flat payload once.",
 ["pymllm/orchestrator/shared_memory_queue.py", "pymllm/orchestrator/cuda_ipc_transport.py"],
 [("queue", "pymllm/orchestrator/shared_memory_queue.py:TensorQueue"), ("staging pool", "pymllm/orchestrator/cuda_ipc_transport.py:MmItemMemoryPool")], ["payload at consumer, pool chunk lists"])

prop("P16", "Sampling honours each request's own parameters",
 "For any logits and any mix of requests in a batch, a greedy request returns its own arg-max, a sampled token always lies inside the request's own top-k/top-p/min-p support, filtered probabilities sum to one and keep exactly the support, and penalties apply exactly to the tokens in that request's own history.",
 ["inputs", "configurations"],
 "All logit vectors over a small value grid times all parameter combinations times batch compositions; all random draws over a grid.",
 "Tests use random logits with uniform parameters; ties, extremes and mixed batches are not enumerated.",
 ["pymllm/layers/sampling.py", "pymllm/executor/model_runner.py"],
 [("filters", "pymllm/layers/sampling.py"), ("penalties and dispatch", "pymllm/executor/model_runner.py:sample,_apply_penalties")], ["token ids and renormalised probabilities"])

prop("P17", "Model files: what was written is what is read, incomplete files are refused",
 "Any set of named tensors written by the exporter or by the runtime is read back with identical names, types, shapes and bytes by the runtime reader, up to the declared capacity; a writer that dies at any point leaves a file that the reader refuses rather than loads with wrong data.",
 ["inputs", "crash_points"],
 "All small tensor sets (dtypes, shapes, names, counts up to and beyond capacity), all crash points between file-system calls of the writer, every truncation length of the result.",
 "Round trips of one good file say nothing about capacity limits, crash points or truncated files.",
 ["pymllm/mobile/convertor/model_file_v2.py", "mllm/core/ParameterFile.cpp", "mllm/core/ParameterFile.hpp", "mllm/core/MappedFile.cpp"],
 [("exporter", "pymllm/mobile/convertor/model_file_v2.py"), ("runtime reader/writer", "mllm/core/ParameterFile.cpp")], ["tensors read back, error raised"])

prop("C01", "On-device prefix tree returns only KV of the queried prefix",
 "For any sequence of insertions, lookups, node splits and clears in the on-device prefix tree, a lookup returns the longest stored prefix of the query in its namespace and, for each token and layer, exactly the KV addresses first stored for that whole prefix.",
 ["histories", "inputs"],
 "All operation sequences to a depth bound over all keys up to length 4 on a 3-letter alphabet and 2 namespaces.",
 "The existing test program runs a few fixed keys and never queries keys diverging inside an edge.",
 ["mllm/engine/prefix_cache/RadixTree.cpp", "mllm/engine/prefix_cache/RadixTree.hpp"],
 [("insert", "mllm/engine/prefix_cache/RadixTree.cpp:RadixTree::insert"), ("search", "mllm/engine/prefix_cache/RadixTree.cpp:RadixTree::search"), ("split", "mllm/engine/prefix_cache/RadixTree.cpp:_split")],
 ["search result addresses"], [("tree", "stored prefixes with addresses", "mllm/engine/prefix_cache/RadixTree.cpp")])

prop("C02", "On-device KV page allocator: live pages are disjoint and survive",
 "For any sequence of page allocations, writes, frees, prefetch/purge hints and reopens, live pages never overlap, lie inside their backing storage, keep the bytes written to them, become reusable once freed, and running out is reported, never silently double-served.",
 ["histories", "configurations"],
 "All alloc/free/hint sequences to a depth bound over small lane/page/bit geometries, in-memory and file-backed.",
 "The test program allocates a few pages once.",
 ["mllm/engine/prefix_cache/ZenFS.cpp", "mllm/engine/prefix_cache/ZenFS.hpp", "mllm/engine/prefix_cache/Allocator.cpp", "mllm/engine/prefix_cache/Cache.cpp"],
 [("allocate", "mllm/engine/prefix_cache/ZenFS.cpp:ZenFileSystem::malloc"), ("free", "mllm/engine/prefix_cache/ZenFS.cpp:ZenFileSystem::free")], ["returned addresses and memory contents"])

prop("C03", "Device memory manager: live blocks never overlap and are returned once",
 "For any sequence and any interleaving of allocations and frees from several threads, live blocks are disjoint, large and aligned enough, keep their contents, and freed memory is reused or returned exactly once; a request larger than any pool block is served or refused, never hangs.",
 ["histories", "schedules"],
 "All alloc/free sequences to a depth bound over sizes around the pool boundaries; all thread interleavings up to a preemption bound for two threads.",
 "Not tested; races need particular schedules.",
 ["mllm/engine/BuddyMemPool.cpp", "mllm/engine/BuddyMemPool.hpp", "mllm/engine/MemoryManager.cpp"],
 [("buddy allocation", "mllm/engine/BuddyMemPool.cpp"), ("pool dispatch", "mllm/engine/MemoryManager.cpp")], ["block addresses, backing allocations"])

prop("C04", "Parallel loops run every iteration exactly once under every schedule",
 "A parallel loop handed to the thread pool executes each of its iterations exactly once, for every range, step, chunking and worker count, has finished all of them when it returns, and the pool can be activated, idled and shut down at any time without hanging, under every thread schedule.",
 ["schedules", "inputs", "configurations"],
 "All (start,end,step,tiles) combinations to a bound, and all interleavings to a preemption bound of caller and workers.",
 "Unit tests run on whatever schedule the machine happens to pick, and only with ranges divisible by the step.",
 ["mllm/engine/HpcThreadPool.cpp", "mllm/engine/HpcThreadPool.hpp"],
 [("task split", "mllm/engine/HpcThreadPool.cpp:push"), ("worker loop", "mllm/engine/HpcThreadPool.cpp")], ["iterations executed"])

prop("C05", "On-device service delivers every response to its requester under all schedules",
 "Each request sent to the on-device service gets its own responses, complete and in order, exactly once, whatever the interleaving of senders, workers, waiters and shutdown; a malformed request, an unknown model or a failing session yields an error response rather than a crash or an endless wait.",
 ["schedules", "fault_sequences"],
 "All interleavings up to a preemption bound of two requesters and one or two workers, with sessions that succeed, fail or throw, and shutdown at any point.",
 "Not tested; lost wake-ups need particular schedules.",
 ["mllm/engine/service/Service.cpp", "mllm/engine/service/Service.hpp", "mllm/engine/service/Session.hpp"],
 [("request/response pools", "mllm/engine/service/Service.cpp"), ("worker", "mllm/engine/service/Service.cpp")], ["responses seen by waiters"])

prop("C06", "KV caches append and expose exactly the tokens written, within capacity",
 "For any sequence of appends, clears and position changes, on the preallocated on-device KV cache, on windows into it and on the growing one, every layer and head exposes exactly the keys and values written, in order, grouped heads repeated as declared; an append beyond the capacity is refused without touching other memory. On the paged prefix cache a lookup gives the pages stored for that prefix, and evicting a sequence frees, in the sliding-window layers only, exactly the tokens older than the window.",
 ["histories", "configurations"],
 "All append/seek/clear/window sequences to a depth bound over layers, heads, repetition, element types and capacities; all request/evict sequences on the paged cache for windows 0-3.",
 "Not tested.",
 ["mllm/nn/lmcache/StaticCache.cpp", "mllm/nn/lmcache/StaticCache.hpp", "mllm/nn/lmcache/DynamicCache.cpp", "mllm/nn/lmcache/PrefixCache.cpp"],
 [("append", "mllm/nn/lmcache/StaticCache.cpp:updateKVCache"), ("window", "mllm/nn/lmcache/StaticCache.hpp:SubStaticCache"), ("eviction", "mllm/nn/lmcache/PrefixCache.cpp:evictSlidingWindowLayerOn")], ["tensors returned by update", "pages returned by find"])

prop("C07", "Symbolic shape expressions evaluate like ordinary arithmetic",
 "Every well-formed shape expression evaluates to the value ordinary arithmetic (/ exact, % on the integer parts) with the usual precedence and left associativity gives for it, for every binding of its variables; its printed form means the same. A malformed expression is rejected, and an unbound variable or a modulo by zero is refused, rather than hanging, crashing or yielding a value.",
 ["inputs", "programs"],
 "All token strings to a length bound over operators, parentheses, numbers and variables.",
 "The existing test covers only the lexer.",
 ["mllm/compile/symbolic_expr/Parser.cpp", "mllm/compile/symbolic_expr/AST.hpp", "mllm/compile/symbolic_expr/Eval.cpp"],
 [("parser", "mllm/compile/symbolic_expr/Parser.cpp"), ("evaluator", "mllm/compile/symbolic_expr/Eval.cpp")], ["evaluation result or error"])

prop("C08", "Tokenizer pre-splitting finds special tokens and loses no text",
 "Splitting text around special tokens yields pieces that concatenate to exactly the input, in which the leftmost and among those the longest special token is always its own piece, for every token set and text; text encodings convert back and forth without loss.",
 ["inputs"],
 "All token sets to a bound over a small alphabet (tokens that are prefixes, suffixes or infixes of one another) times all texts to a length bound; all code points for the encodings.",
 "Not tested in the reliably running tests; overlap cases are combinatorial.",
 ["mllm/preprocessor/tokenizers/AutoTokenizer.cpp", "mllm/preprocessor/tokenizers/BPE.cpp", "mllm/preprocessor/tokenizers/BPEUTF8.cpp", "mllm/preprocessor/tokenizers/Unicode.cpp"],
 [("special-token trie", "mllm/preprocessor/tokenizers/AutoTokenizer.cpp:Trie::split"), ("byte-pair merge", "mllm/preprocessor/tokenizers/BPE.cpp")], ["pieces and tokens"])

prop("C09", "Byte-pair merging applies the best merge first, as the vocabulary ranks them",
 "For every merge table and word, the on-device tokenizer produces exactly the tokens obtained by repeatedly applying the best-ranked applicable merge to all its occurrences from left to right, and the tokens concatenate to the word; every vocabulary entry is found under its id and its text; a file that is no vocabulary is refused.",
 ["inputs"],
 "All small merge tables over a 3-letter alphabet times all words to a length bound.",
 "Fixed-vocabulary tests cannot cover merge-order interactions, and none runs reliably here.",
 ["mllm/preprocessor/tokenizers/BPE.cpp", "mllm/preprocessor/tokenizers/BPEUTF8.cpp"],
 [("merge loop", "mllm/preprocessor/tokenizers/BPE.cpp"), ("merge loop (byte-level)", "mllm/preprocessor/tokenizers/BPEUTF8.cpp")], ["token sequence"])

prop("C10", "Shared ownership handles: an object dies exactly with its last owner",
 "For any sequence of creating, copying, moving, converting, assigning, swapping, resetting and destroying intrusive shared handles (also across threads), the object is alive while any handle refers to it and is destroyed exactly once when the last one goes.",
 ["histories", "programs"],
 "All handle-operation sequences to a depth bound over two objects and three handles, including converting and self operations.",
 "No test covers converting moves or self assignment sequences.",
 ["mllm/utils/IntrusivePtr.hpp", "mllm/utils/WeakOwner.hpp"],
 [("handle", "mllm/utils/IntrusivePtr.hpp")], ["object lifetime"])

prop("C11", "Views and slices address exactly the elements they denote",
 "For every shape and every slice (including negative, open-ended and strided bounds), transpose, reshape and permutation, reading the derived tensor gives exactly the elements the expression denotes, reading never leaves the storage, and materialising it changes no value.",
 ["inputs", "programs"],
 "All shapes up to rank 3 and extent 3 times all slice/transpose/view chains to a depth bound.",
 "No reliably running test covers tensor views.",
 ["mllm/core/TensorViewImpl.cpp", "mllm/core/SlicePrimitives.cpp", "mllm/core/aops/SliceOp.cpp", "mllm/backends/cpu/ops/SliceOp.cpp"],
 [("strides and offsets", "mllm/core/TensorViewImpl.cpp")], ["element addresses"])

prop("C12", "CPU data-movement operators compute their definition for every shape",
 "For every shape, axis, parameter choice and memory layout of the inputs (views included), the CPU operators that rearrange data (concatenate, stack, split, gather, index, embedding lookup, scatter to shards, masked scatter, pad, repeat, top-k, sort, clone, copy) produce exactly the result their definition gives, change no input, touch no memory outside their tensors, and refuse axes, indices and sizes that denote nothing.",
 ["inputs", "configurations"],
 "All shapes to a bound times all axes and parameters, over every supported element type.",
 "Operator tests are not among the reliably running ones and sample single shapes.",
 ["mllm/backends/cpu/ops/ConcatOp.cpp", "mllm/backends/cpu/ops/SplitOp.cpp", "mllm/backends/cpu/ops/PadOp.cpp", "mllm/backends/cpu/ops/TopKOp.cpp", "mllm/backends/cpu/ops/GatherOp.cpp", "mllm/backends/cpu/ops/RepeatOp.cpp", "mllm/backends/cpu/ops/StackOp.cpp", "mllm/backends/cpu/ops/ArgsortOp.cpp", "mllm/backends/cpu/ops/MaskedScatterOp.cpp", "mllm/backends/cpu/ops/Scatter2ShardsOp.cpp", "mllm/backends/cpu/ops/EmbeddingOp.cpp", "mllm/core/aops/IndexOp.cpp", "mllm/backends/cpu/ops/CloneOp.cpp", "mllm/backends/cpu/ops/CopyOp.cpp"],
 [("operator kernels", "mllm/backends/cpu/ops")], ["output tensors"])

prop("C13", "CPU masking, rotary, resampling and transform operators compute their definition",
 "For every shape, parameter choice and memory layout of the inputs, causal masking (queries being the last positions of the keys, with or without a sliding window), rotary embedding, nearest, linear and cubic resampling, the windowed Fourier transform and its inverse, and the fill kernels produce what their definition gives for every element, change no input, touch no memory outside their tensors and refuse calls without a meaning.",
 ["inputs", "configurations"],
 "All shapes to a bound that crosses every vector width, times every parameter and layout.",
 "Operator tests are not among the reliably running ones and sample square or power-of-two shapes.",
 ["mllm/backends/cpu/ops/CausalMaskOp.cpp", "mllm/backends/cpu/ops/RoPEOp.cpp", "mllm/backends/cpu/ops/InterpolateOp.cpp", "mllm/backends/cpu/ops/STFTOp.cpp", "mllm/backends/cpu/kernels/x86/fill.cpp", "mllm/core/aops/STFTOp.cpp", "mllm/core/aops/ISTFTOp.cpp", "mllm/core/aops/InterpolateOp.cpp"],
 [("operators", "mllm/backends/cpu/ops")], ["output tensors"])

prop("C14", "On-device tokenizers split by their pattern and decode what they encode",
 "For every text, each model's tokenizer cuts out special tokens, splits the rest exactly as its documented pattern says (leftmost alternative, with backtracking), gives every piece its tokens' vocabulary ids, and decoding the ids gives the text back; a chat message gets the ids of its template around the prompt.",
 ["inputs"],
 "All texts to a length bound over letters, digits, kinds of white space, quotes, punctuation, multi-byte letters and special tokens, for ten tokenizers.",
 "Tokenizer tests need vocabulary files and sample a few sentences; none runs reliably here.",
 ["mllm/models/qwen3/tokenization_qwen3.hpp", "mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp", "mllm/models/qwen2vl/tokenization_qwen2vl.hpp", "mllm/models/qwen_npu/tokenization_qwen.hpp", "mllm/models/qwen_ascend/tokenization_qwen_ascend.hpp", "mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp", "mllm/models/smollm3_3B/tokenization_smollm3.hpp", "mllm/models/deepseek_ocr/tokenization_deepseek_ocr.hpp", "mllm/models/minicpm4/tokenization_minicpm4.hpp", "mllm/models/llama/tokenization_tiny_llama.hpp", "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp"],
 [("Qwen split pattern", "mllm/models/qwen3/tokenization_qwen3.hpp"), ("GPT-2 split pattern", "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp")], ["tokens, ids and decoded text"])

prop("C15", "Quantised blocks, dot products and matrix products compute their definition",
 "For every content of a block, converting to and from each quantised element type gives the value its format defines (to the format's precision, saturating), dot products equal the sum over the decoded elements, and matrix products equal the definition for every size, tile remainder, thread split, batch, bias and element type, writing nothing outside the result.",
 ["inputs"],
 "Every code in every place of a block, every length around the vector widths, every tile remainder and thread split within the bounds.",
 "A test multiplies a few matrices of round sizes; remainders of tiles, limits of codes and thread splits decide, and no such test runs reliably here.",
 ["mllm/backends/cpu/kernels/common/ggml/vec_dot.cpp", "mllm/backends/cpu/kernels/common/ggml/matmul.cpp", "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q4.cpp", "mllm/backends/cpu/kernels/common/llamafile/llamafile_sgemm.cpp"],
 [("dot products", "mllm/backends/cpu/kernels/common/ggml/vec_dot.cpp"), ("tiled product", "mllm/backends/cpu/kernels/common/llamafile/llamafile_sgemm.cpp")], ["numbers computed, memory touched"])

prop("C16", "Image and audio preprocessing computes its definition",
 "For every size and position, cropping, centre-cropping, padding, resizing, conversion to tensors and normalisation of images give the pixels their definition says, composed pipelines equal their steps, and inputs are left as they were; audio files are read as written, resampled, cut into clips and turned into features by definition for every length and sequence of files.",
 ["inputs", "histories"],
 "All image sizes, crop rectangles and paddings to a bound; all clip lengths around the boundaries, sample rates and orders of files.",
 "Off-by-one pixels, remainders of clips and reads beyond the end show only for particular sizes; no test covers preprocessing.",
 ["mllm/preprocessor/visual/Image.cpp", "mllm/preprocessor/visual/ImageTransform.cpp", "mllm/preprocessor/audio/Audio.cpp", "third_party/wenet_audio/feature_pipeline.cc"],
 [("image transforms", "mllm/preprocessor/visual/ImageTransform.cpp"), ("audio", "mllm/preprocessor/audio/Audio.cpp")], ["pixels, tensors, samples and features"])

prop("P18", "Tensor-parallel layers compute what the unsharded layer computes",
 "For every world size and degree of tensor, data and pipeline parallelism, every process gets the right groups and coordinates without deadlock; column- and row-parallel projections, vocabulary-parallel embeddings, MLPs and merged projections loaded from the full weights compute on every rank what the unsharded layer computes, whatever order shards are loaded in, and refuse weights of the wrong shape.",
 ["inputs", "schedules"],
 "All factorisations of worlds to a bound; all layer shapes, biases, gather/reduce options, padding and token ids to a bound; all orders of loading shards.",
 "Tests run one process; a misplaced shard, a bias added on every rank or a group created in a different order per rank shows only with several ranks.",
 ["pymllm/orchestrator/parallel_state.py", "pymllm/orchestrator/group_coordinator.py", "pymllm/layers/linear.py", "pymllm/layers/embedding.py", "pymllm/layers/mlp.py"],
 [("groups", "pymllm/orchestrator/parallel_state.py:initialize_model_parallel"), ("parallel linear layers", "pymllm/layers/linear.py"), ("embedding", "pymllm/layers/embedding.py")], ["outputs of every rank"])

prop("P19", "The served text models compute the reference decoder for every batching",
 "For Qwen3 and the hybrid Qwen3.5, whatever requests share a batch, in whatever order, however a prompt is cut into chunks or started from another request's cached prefix, eagerly or through padded CUDA-graph batches, and however rows and slots were used before, every request's logits are those of the published decoder applied to that request's tokens alone.",
 ["inputs", "histories"],
 "Every sequence of prefill batches (orders, chunk cuts, shared prefixes), decode batches (orders, padding) and ends, to a depth, over tiny models with every option that changes the arithmetic.",
 "Tests never run a model with the pools, backends and graph runner together; a wrong cached length, a stale recurrent state or a padding row that writes into a live request shows only in some batch after some history.",
 ["pymllm/executor/model_runner.py", "pymllm/executor/cuda_graph_runner.py", "pymllm/models/qwen3.py", "pymllm/models/qwen3_5.py", "pymllm/layers/attention", "pymllm/mem_cache/memory_pool.py"],
 [("runner", "pymllm/executor/model_runner.py:ModelRunner.forward"), ("graph runner", "pymllm/executor/cuda_graph_runner.py:CudaGraphRunner.replay"), ("attention backend", "pymllm/layers/attention/flashinfer_backend.py"), ("GDN", "pymllm/layers/attention/gdn_backend.py"), ("pools", "pymllm/mem_cache/memory_pool.py")], ["logits of every step"])

prop("P20", "When served, a request gets the logits of its own tokens and images",
 "With the prefix cache, evictions, page sizes and batching of the real serving path, each request (text, hybrid, or vision-language with images) gets at every step the logits the published model gives for that request's own tokens and images: a cached prefix never brings another request's image, positions or recurrent state.",
 ["inputs", "histories"],
 "Every history of prefill batches, decode steps and ends to a depth, over prompts that share prefixes, repeat, show other images behind equal tokens or contain the image marker as text; page sizes, small pools with evictions, graphs.",
 "Tests stub the model out; what a cached prefix does to rotary positions, image features or recurrent states needs the real model behind the real cache, and the defect shows as plausible but wrong text.",
 ["pymllm/orchestrator/model_runner_process.py", "pymllm/executor/model_runner.py", "pymllm/models/qwen3_vl.py", "pymllm/mem_cache/radix_cache.py"],
 [("forward of a batch", "pymllm/orchestrator/model_runner_process.py:ModelRunnerProcess._forward_batch"), ("vision-language model", "pymllm/models/qwen3_vl.py"), ("prefix cache", "pymllm/mem_cache/radix_cache.py")], ["logits of every step"])

prop("P21", "The model a checkpoint describes is the model that is served",
 "For every order of the tensors, every way of splitting them over files, every accepted form of their names, additional tensors at any place, and every accepted quantization (AWQ, compressed-tensors 4 and 8 bit, any modules left out of it), the loaded model computes the published decoder on the weights the checkpoint stands for; no tensor lands in another's place or stays unloaded.",
 ["inputs", "histories"],
 "All orders and splits of the tensors that share parameters, all places of additional tensors, all sets of unquantized modules to a size, all group sizes, for every supported text architecture.",
 "Tests load no checkpoint; a shard that lands by order of arrival, or is skipped without a word, leaves a model that answers with plausible but wrong text.",
 ["pymllm/executor/model_runner.py", "pymllm/models/qwen3.py", "pymllm/models/qwen3_5.py", "pymllm/models/qwen3_vl.py", "pymllm/layers/linear.py", "pymllm/quantization/methods"],
 [("loading", "pymllm/executor/model_runner.py:ModelRunner.load_model"), ("names", "pymllm/models/qwen3.py:Qwen3ForCausalLM.load_weights"), ("shards", "pymllm/layers/linear.py:MergedLinear"), ("quantization", "pymllm/quantization/methods")], ["logits of the loaded model"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
