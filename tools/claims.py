NA = {}
BFS = "explicit-state model checking of the real classes: exhaustive enumeration of operation sequences to a depth bound against a reference model"
CLAIMED["P09"] = (BFS, "All alloc/free/group/clear sequences to the stated depth on every small pool configuration, real allocator classes on CPU tensors; trusts that clients free only what they hold.")
SERVE = "explicit-state model checking of the real serving loop (scheduler, model-runner process, prefix cache, pools): exhaustive enumeration of submit/abort/step orders, each run to idle, against single-request semantics"
CLAIMED["P01"] = (SERVE, "Three to four requests per workload, pools of 8-24 slots, all cache kinds; the neural network is a stand-in that reads and writes KV exactly where the batch says.")
CLAIMED["P02"] = (SERVE, "As P01; the stand-in's keys/values name their whole context, so any stale, foreign or mispositioned slot changes the output. Attention kernels themselves are not executed.")
CLAIMED["P03"] = (SERVE, "As P01; covers the scheduler side up to the messages sent to the detokenizer, both request transports.")
CLAIMED["P04"] = (SERVE, "As P01, with tight limits. Admission does not reserve decode growth (known finding kv-overcommit).")
CLAIMED["P05"] = (BFS, "RadixCache without window: all insert/lookup/lock/evict/reset sequences to depth 4-5 over up to 11 keys, page sizes 1-3, namespaces.")
CLAIMED["P06"] = (BFS, "As P05 with up to two outstanding locks and several eviction amounts; clock is a strictly increasing counter.")
CLAIMED["P07"] = (BFS, "RadixCache with a window: all insert/start/finish/drop/lookup/evict sequences to depth 4-5, windows 1-3, pages 1-2, with and without a separate window pool.")
CLAIMED["P08"] = (BFS, "MambaRadixCache: all insert/lookup/lock/unlock/evict sequences to depth 4-5 over up to 4 keys with and without state.")
CHUNK = "explicit-state exploration of the real streaming parser: every text over a fragment alphabet x every way to cut it, states merged on parser state and output"
CLAIMED["P10"] = (BFS, "Every token sequence up to 5-8 tokens over alphabets of partial characters x every grouping; real transformers tokenizers (byte-level, byte-fallback); sockets are stand-ins.")
CLAIMED["P11"] = (CHUNK, "Texts of up to 4-5 fragments, all chunkings; the real /v1/chat/completions handler for selected texts with all 1- and 2-cut chunkings. Outer whitespace is not compared.")
CLAIMED["P12"] = (CHUNK, "As P11 for the four tool-call formats with 28 well-formed and malformed bodies; the handler included. Streamed parts of a malformed call are not fixed.")
CLAIMED["P13"] = ("explicit-state model checking of the real front end (tokenizer manager, server handlers) on a real asyncio event loop with virtual time: every order of submissions, aborts, cancellations and engine replies, by replay", "Up to three requests, up to four result chunks each; sockets are queues controlled by the explorer; the event loop runs to quiescence between events.")
CLAIMED["P14"] = ("exhaustive enumeration of every combination of field forms (scalar, per-item list, wrong-length list, absent) over the real request types and dispatch, against per-item expansion", "Batches of one to three; multimodal payloads are opaque values.")
CLAIMED["P15"] = ("explicit-state exploration, by replay, of the real queue, segments, staging pool, tokenizer loop and scheduler receive path; all thread interleavings (line granularity, bounded preemptions) of allocator and recycler", "Device memory is simulated by host memory with synchronous copies; pools of 8-64 bytes, up to 3 messages in flight.")
CLAIMED["P16"] = ("exhaustive enumeration of logit vectors x parameter combinations x batch compositions x outcomes of every random draw through the real sampler, and explicit-state exploration of the serving loop for which request's parameters reach which row", "Vocabularies of 4-6, logits from a 4-value grid, batches of 1-3 rows; the PyTorch kernels only (FlashInfer needs a GPU).")
CPP = "explicit-state model checking of the real C++ class (built with address and undefined-behaviour sanitizers): exhaustive enumeration of operation sequences, replayed on fresh objects, against a reference model"
CLAIMED["C01"] = (CPP, "All insert/clear sequences to depth 2-6 over words of up to 6 tokens, 1-3 letter alphabets, up to 16 namespaces; eviction is not implemented in this tree.")
CLAIMED["C02"] = (CPP, "All alloc/fill/free/rewrite/hint/reopen sequences to depth 4-6, blobs of 2-128 lanes, anonymous and file-backed, recorded or not. Address exhaustion (2^32 lanes) is out of reach.")
SCHED = "stateless model checking of the real multi-threaded C++ code: controlled scheduler enumerating every interleaving within preemption/detour bounds, with vector-clock race, deadlock and use-after-free detection on each"
CLAIMED["C04"] = (SCHED, "Pools of 1-4 threads, up to three callers; at most 1-3 preemptions and 1-2 out-of-turn switches per execution; the MLLM thread-pool vendor only (OpenMP and GCD loops are compiler/OS code).")
CLAIMED["C03"] = (CPP, "All alloc/free/cache-update sequences to depth 4-8 on small pool geometries with the real CPU allocator, plus every interleaving of two or three threads within 2 preemptions.")
CLAIMED["C05"] = (SCHED, "One to three workers, up to three users with distinct request ids, at most 1-2 preemptions; every sequence of two (thorough: three) of 22 kinds of good, failing and malformed requests. Sessions are stand-ins.")
CLAIMED["C06"] = (CPP, "All sequences to depth 5-6 over capacities 3-4, 1-2 layers, head repetition 1-3, up to two windows; the growing cache to 4-6 tokens; the paged cache with windows 0-3, words of up to 5 tokens. CPU memory; one batch.")
CLAIMED["C07"] = (CPP, "All texts of up to 5 characters, token strings to length 4-6, operator chains to length 6, trees of up to 3 operators, five variable bindings each.")
CLAIMED["C08"] = (CPP, "All sets of 2-6 special tokens of up to 4 letters times all texts of up to 8 letters; all code points; all strings of up to 4 boundary code points; all byte strings of up to 4 bytes.")
CLAIMED["C09"] = (CPP, "All ordered tables of 2-4 merges over words of up to 4 letters (2-3 letter alphabets) times all words of up to 7 letters.")
CLAIMED["C14"] = (CPP, "All texts of 3-5 units from alphabets of 7-12 units, ten tokenizers, vocabularies with and without merges.")
CLAIMED["C10"] = ("explicit-state model checking of the real classes (address and undefined-behaviour sanitizers) plus stateless model checking of all thread interleavings within preemption bounds", "Up to four handles over three objects; up to three tensors over three storages, depth 5-7; two to three threads.")
CLAIMED["C11"] = (CPP, "All chains to depth 2-3 of slices, views, transpositions, permutations, repeats, copies and writes over bases of 4-9 elements; every combination of slices of shapes up to rank 4; every transposition/permutation of shapes up to rank 5 around the vector widths. Tracing-only (SSA) views are not covered.")
CLAIMED["C12"] = ("explicit-state enumeration on the real operators (address and undefined-behaviour sanitizers): every shape, axis, parameter and input layout within the bounds, against the operator's definition", "Extents 0-3 (4 thorough), ranks 1-4, supported element types; contents of sorted lines over a 3-4 value grid without NaN; one operator thread.")
CLAIMED["C13"] = ("explicit-state enumeration on the real operators (address and undefined-behaviour sanitizers): every shape, parameter and input layout within the bounds, against the operator's definition in double precision", "Masks to 7 queries by 20 keys and every window (12 by 34 thorough); rotary rows to 7 (9) wide; resampling from extents to 9, 4 and 2 in one, two and three dimensions; transforms of 1-10, 12 and 16 points over signals to 11-19 samples; fills to 40 (130) elements at every alignment. One data assignment without structure per shape, compared within the tolerance of the element type. Windows shorter than the transform, normalized inverse transforms and antialiasing are not covered.")
CLAIMED["P17"] = ("explicit-state enumeration of writer histories on the real exporter and runtime: every crash point (the process really dies at each file operation), every size of a full disk and every truncation, each resulting file read back by both real readers (address and undefined-behaviour sanitizers)", "Sets of up to 3 tensors from 6 kinds (every element type, shape and layout alone), capacities 0-3 with up to two tensors more, names around the 255-byte limit; a dying process leaves whole pages of its last write; truncations and disk sizes at every byte of the headers and near the end, every 61st/113th in long data (quick).")

CLAIMED["C15"] = ("explicit-state enumeration on the real kernels (address and undefined-behaviour sanitizers): every code in every place, every size and thread split within the bounds, against the formats' definition in double precision", "x86 code paths (AVX2, F16C); every code of 4- and 8-bit blocks in every position, patterned contents of the K formats; products with every remainder around the tile sizes, 1-8 threads.")
CLAIMED["C16"] = ("explicit-state enumeration on the real transforms (address and undefined-behaviour sanitizers): every size, rectangle, padding, clip length and order of files within the bounds, against their definition", "Images to 12x12; clips around one, two and three clip lengths at several sample rates; 16-bit samples; the interpolation itself of stb_image_resize is checked by symmetry, constants and identity only.")
CLAIMED["P18"] = ("explicit-state enumeration on the real layers, one copy per rank over a lock-step stand-in for torch.distributed that refuses what the real one refuses or hangs on; conformance runs on real gloo processes", "Worlds to 8 for groups and 4 for layers; sizes to 12; small integers, so every sum is exact.")
CLAIMED["P19"] = ("explicit-state enumeration of batch histories on the real runner, pools, attention backends, graph runner and models (FlashInfer's kernels and CUDA graphs replaced by stand-ins of their documented meaning), against a dense double-precision decoder", "2-4 requests, prompts to 8 tokens, depth 3-5 batches; tiny models with all options; the GDN scan on every small input shape.")
CLAIMED["P20"] = ("explicit-state enumeration of serving histories on the real model-runner process, prefix cache, runner and models, against the published implementation in double precision", "Qwen3, Qwen3-VL, Qwen3.5 with and without images; 5-7 prompts, 1-3 per batch, depth 4 (thorough 5); every list of up to two images over three side lengths; page sizes 1 and 2, pools with and without room, graphs.")
CLAIMED["P21"] = ("exhaustive enumeration of checkpoints (orders, splits, names, additional tensors, unquantized modules) loaded by the real ModelRunner.load_model, against the decoder on the weights they stand for", "Qwen3, Qwen3.5, Qwen3-VL; every order of 6 (quantized: 5) tensors that share parameters, every split of them over 2 files, every place of an additional tensor, every set of up to two unquantized modules; AWQ groups 32/64/128/all, compressed-tensors 4 bit groups 32/64/128, 8 bit; one rank; kernels are stand-ins.")
