From 6f4181b48a01f76110576a365ba78b9cc1e5f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 001/132] fix: size the KV buffer for paged allocation (last
 page ran past the buffer)

---
 pymllm/mem_cache/memory_pool.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/memory_pool.py b/pymllm/mem_cache/memory_pool.py
index 9c8ab2a..206f0b5 100644
--- a/pymllm/mem_cache/memory_pool.py
+++ b/pymllm/mem_cache/memory_pool.py
@@ -456,8 +456,10 @@ def make_full_attention_net_mem_pool(
     -------
     (KVPool, TokenToKVPoolAllocator)
     """
+    # Pages are numbered from 1, so the highest slot handed out by the allocator
+    # is size + page_size - 1.
     pool = KVPool(
-        size=size,
+        size=size + page_size - 1,
         layer_num=layer_num,
         k_head_num=k_head_num,
         k_head_dim=k_head_dim,
-- 
2.43.0


From 236efc07816e25a3445af8811839fb5c776b6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 002/132] fix: prefix cache lost a parent's tokens from
 evictable_size when it gained its first child

---
 pymllm/mem_cache/radix_cache.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 80f3d6f..e7d3fec 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -639,14 +639,6 @@ class RadixCache(BasePrefixCache):
         value: torch.Tensor,
         swa_tombstone: bool = False,
     ) -> TreeNode:
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.lock_ref == 0
-            and not parent.evicted
-        ):
-            self._evictable_size -= len(parent.key)
-
         new_node = TreeNode()
         new_node.parent = parent
         new_node.key = key
-- 
2.43.0


From ad0242e619fe2659ec3e4e830e1ac8170996b5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 003/132] fix: prefix cache stored partial pages that lookups
 can never return

---
 pymllm/mem_cache/radix_cache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index e7d3fec..7158eb8 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -259,7 +259,8 @@ class RadixCache(BasePrefixCache):
 
         Returns how many leading tokens were already present (the prefix
         length).  The caller is responsible for freeing duplicate KV indices
-        in the range ``[cache_protected_len, prefix_len)``.
+        in the range ``[cache_protected_len, prefix_len)``.  Only whole pages
+        are stored: a trailing partial page stays with the caller.
 
         Parameters
         ----------
@@ -273,6 +274,8 @@ class RadixCache(BasePrefixCache):
         """
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
+        key = self._page_align_key(key)
+        value = value[: len(key)]
         if self.supports_swa:
             plen = self._insert_swa(
                 self.root_node, key, value, prev_prefix_len, swa_evicted_seqlen
-- 
2.43.0


From 6a9650211d7adc69c743600c5f387671791bd6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 004/132] fix: finished requests released and cached a KV slot
 that was never written

The KV of the last sampled token is written by the decode step after it, so
prompt + len(output_ids) counts one position too many; the extra entry of the
request row is stale (padding slot 0 or a slot of an earlier request).
---
 pymllm/orchestrator/model_runner_process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index d7b6585..a8894f8 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1037,7 +1037,9 @@ class ModelRunnerProcess:
         # Phase 1: Read all KV indices BEFORE freeing anything.
         # ----------------------------------------------------------
         prompt_len = len(input_ids) if input_ids is not None else 0
-        decode_len = len(output_ids) if output_ids else 0
+        # The KV of the last sampled token is only written by the decode step
+        # that would follow it, so that position of the row is not ours.
+        decode_len = max(len(output_ids) - 1, 0) if output_ids else 0
         total_len = prompt_len + decode_len
 
         all_kv_indices: Optional[torch.Tensor] = None
@@ -1073,7 +1075,7 @@ class ModelRunnerProcess:
                 # Non-hybrid or no decode tokens: insert full sequence
                 full_token_ids = list(input_ids)
                 if output_ids:
-                    full_token_ids.extend(output_ids)
+                    full_token_ids.extend(output_ids[:decode_len])
                 key = RadixKey(full_token_ids)
                 result = cache.insert(key, all_kv_indices)
                 new_prefix_len = result.prefix_len
-- 
2.43.0


From fa0a16cf30240f1f55eba7092f9c7e0752582e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 005/132] fix: one-token prompt found in the prefix cache was
 extended by zero tokens

---
 pymllm/orchestrator/model_runner_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index a8894f8..61938aa 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -723,8 +723,9 @@ class ModelRunnerProcess:
             #    where s1 (log-partition) is computed incorrectly, causing
             #    the cascade merge to produce wrong logits → EOS.
             # By ensuring extend_len >= 2, we avoid both issues.
-            if prefix_len >= full_seq_len - 1 and full_seq_len >= 2:
-                prefix_len = full_seq_len - 2
+            # A 1-token prompt has nothing to keep from the hit.
+            if prefix_len >= full_seq_len - 1:
+                prefix_len = max(full_seq_len - 2, 0)
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
 
-- 
2.43.0


From bbe175e47c5d00861b1f27ab7f3c5c74726b7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 006/132] fix: slots of a finished request's partial last page
 were never released

The prefix cache keeps whole pages only, so with a page size above one the
unaligned tail belongs to nobody once the request is gone.
---
 pymllm/orchestrator/model_runner_process.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 61938aa..9388c5d 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1089,6 +1089,13 @@ class ModelRunnerProcess:
 
             did_insert = True
 
+            # The tree only keeps whole pages; the tail stays with the request.
+            page_size = getattr(cache, "page_size", 1)
+            kept_len = prompt_len if self._is_hybrid else total_len
+            tail = all_kv_indices[kept_len // page_size * page_size : kept_len]
+            if tail.numel() > 0:
+                runner.token_to_kv_pool_allocator.free(tail)
+
         # ----------------------------------------------------------
         # Phase 3: Unlock radix cache nodes.
         # ----------------------------------------------------------
-- 
2.43.0


From 0bd710ca64d4daf771ec9fc925fc06eb6fb90099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 007/132] fix: hybrid models replayed prompt tokens into a
 recurrent state that already held them

When a cached prefix covers the whole prompt the last two tokens are computed
again, but the recurrent state restored for the hit already contains them.
---
 pymllm/orchestrator/model_runner_process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 9388c5d..c5e14fb 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -724,8 +724,10 @@ class ModelRunnerProcess:
             #    the cascade merge to produce wrong logits → EOS.
             # By ensuring extend_len >= 2, we avoid both issues.
             # A 1-token prompt has nothing to keep from the hit.
+            # The recurrent state of a hybrid model cannot be rolled back to
+            # the shortened prefix, so there the hit is dropped altogether.
             if prefix_len >= full_seq_len - 1:
-                prefix_len = max(full_seq_len - 2, 0)
+                prefix_len = max(full_seq_len - 2, 0) if gdn_pool is None else 0
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
 
-- 
2.43.0


From 916eff60c03085bc370878d24e5cf7b3ab2f382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 008/132] fix: aborts were never received in shared-queue mode

The tokenizer sends abort messages over ZMQ in both modes; with the shared
queue enabled the scheduler never read that socket, so aborted requests ran on
and the pending message kept waking the idle poller.
---
 pymllm/orchestrator/scheduler_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 29e05fe..4e0f937 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -533,8 +533,8 @@ class SchedulerProcess:
         """
         if self._enable_shared_queue and self._shared_queue is not None:
             self._recv_from_shared_queue()
-        else:
-            self._recv_from_zmq()
+        # Abort messages always travel over ZMQ.
+        self._recv_from_zmq()
 
     def _recv_from_zmq(self) -> None:
         """Receive requests via legacy ZMQ path."""
-- 
2.43.0


From 2fd12d8247a56bf58391a8812777ef8d94befdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 009/132] fix: a prompt longer than the prefill or token limit
 waited forever

Such a request can never be admitted; report it finished (abort) instead of
leaving its caller waiting.
---
 pymllm/orchestrator/scheduler_process.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 4e0f937..9697d8e 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -652,6 +652,16 @@ class SchedulerProcess:
                 logprob_start_len=raw.logprob_start_len,
                 top_logprobs_num=raw.top_logprobs_num,
             )
+            if req.prompt_len > min(self._max_prefill_tokens, self._max_total_tokens):
+                # Could never be scheduled: end it instead of queueing forever.
+                logger.warning(
+                    "Rejecting request %s: prompt of %d tokens exceeds the limits",
+                    req.rid,
+                    req.prompt_len,
+                )
+                req.abort()
+                self._collect_finished_output(req)
+                continue
             self._pending_queue.append(req)
             logger.debug("Processed input request %s (len=%d)", req.rid, req.seq_len)
 
-- 
2.43.0


From 099d7843e257366f89f75ef200137345a5db9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 010/132] fix: an empty prompt crashed the scheduler

---
 pymllm/orchestrator/scheduler_process.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 9697d8e..bc5443b 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -652,10 +652,12 @@ class SchedulerProcess:
                 logprob_start_len=raw.logprob_start_len,
                 top_logprobs_num=raw.top_logprobs_num,
             )
-            if req.prompt_len > min(self._max_prefill_tokens, self._max_total_tokens):
-                # Could never be scheduled: end it instead of queueing forever.
+            max_prompt = min(self._max_prefill_tokens, self._max_total_tokens)
+            if not 0 < req.prompt_len <= max_prompt:
+                # Could never be run: end it instead of queueing it forever
+                # (or, with nothing to prefill, taking the whole server down).
                 logger.warning(
-                    "Rejecting request %s: prompt of %d tokens exceeds the limits",
+                    "Rejecting request %s: prompt of %d tokens is empty or too long",
                     req.rid,
                     req.prompt_len,
                 )
-- 
2.43.0


From ed47bfd5db639eb92d2507d5d51ef0f702892f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 011/132] fix: hybrid prefix cache lost a parent's tokens from
 evictable_size when it gained its first child

---
 pymllm/mem_cache/mamba_radix_cache.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index bee8027..55d82e2 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -534,15 +534,6 @@ class MambaRadixCache(BasePrefixCache):
         value: torch.Tensor,
         mamba_value: Optional[torch.Tensor] = None,
     ) -> MambaTreeNode:
-        # Parent may lose leaf status
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.full_lock_ref == 0
-            and not parent.evicted
-        ):
-            self._full_evictable -= len(parent.key)
-
         new_node = MambaTreeNode()
         new_node.parent = parent
         new_node.key = key
-- 
2.43.0


From 282f2bb0b79ab69a21795942c433b29920dc93e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 012/132] fix: hybrid prefix cache could not be unlocked by the
 model runner

dec_lock_ref() did not accept the token inc_lock_ref() returned, so serving with
the Mamba cache raised TypeError; and a lock taken before the node had a state
released the state lock of another holder.
---
 pymllm/mem_cache/mamba_radix_cache.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 55d82e2..f19ecf0 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -481,6 +481,9 @@ class MambaRadixCache(BasePrefixCache):
 
         Full lock propagates up to root.  Mamba lock only applies to
         the node itself (not ancestors).
+
+        Returns a token for :meth:`dec_lock_ref`: whether the Mamba state
+        was locked (the node may gain a state while it is held).
         """
         if node is None:
             return None
@@ -491,6 +494,9 @@ class MambaRadixCache(BasePrefixCache):
                 self._mamba_evictable -= len(node.mamba_value)
                 self._mamba_protected += len(node.mamba_value)
             node.mamba_lock_ref += 1
+            mamba_locked = True
+        else:
+            mamba_locked = False
 
         # Lock full KV up to root
         cur = node
@@ -500,15 +506,17 @@ class MambaRadixCache(BasePrefixCache):
                 self._full_protected += len(cur.key)
             cur.full_lock_ref += 1
             cur = cur.parent
-        return None
+        return mamba_locked
 
-    def dec_lock_ref(self, node: MambaTreeNode, **kwargs: Any) -> None:
+    def dec_lock_ref(
+        self, node: MambaTreeNode, mamba_locked: Optional[Any] = None, **kwargs: Any
+    ) -> None:
         """Unlock full KV and Mamba state."""
         if node is None:
             return
 
         # Unlock mamba on the node itself
-        if node.mamba_lock_ref > 0:
+        if mamba_locked:
             node.mamba_lock_ref -= 1
             if node.mamba_lock_ref == 0 and node.mamba_value is not None:
                 self._mamba_evictable += len(node.mamba_value)
-- 
2.43.0


From 0825ca4af4f295e0b716a9aed68ca0f14480a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 013/132] fix: splitting a hybrid cache node handed its
 recurrent state to a shorter prefix

---
 pymllm/mem_cache/mamba_radix_cache.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index f19ecf0..fb1813a 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -568,14 +568,11 @@ class MambaRadixCache(BasePrefixCache):
         new_node.children[_child_key(key[split_len:], self.page_size)] = child
         new_node.parent = child.parent
         new_node.full_lock_ref = child.full_lock_ref
-        new_node.mamba_lock_ref = child.mamba_lock_ref
         new_node.key = child.key[:split_len]
         new_node.value = child.value[:split_len].clone()
 
-        # Split mamba value
-        if child.mamba_value is not None:
-            new_node.mamba_value = child.mamba_value[:split_len].clone()
-            child.mamba_value = child.mamba_value[split_len:].clone()
+        # The Mamba state belongs to the end of the whole prefix: it stays with
+        # the child, and nothing is known at the split point.
 
         child.parent = new_node
         child.key = child.key[split_len:]
@@ -584,8 +581,6 @@ class MambaRadixCache(BasePrefixCache):
 
         # Update LRU lists: insert new_node, keep child
         self.full_lru.insert_mru(new_node)
-        if new_node.mamba_value is not None:
-            self.mamba_lru.insert_mru(new_node)
 
         return new_node
 
-- 
2.43.0


From 3ef638e0b3f4b2e17095b9627931d6f8833ed03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 014/132] fix: hybrid cache mixed token and state counts in its
 Mamba accounts

---
 pymllm/mem_cache/mamba_radix_cache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index fb1813a..36d3d7a 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -416,7 +416,7 @@ class MambaRadixCache(BasePrefixCache):
             # Existing node gains mamba state (un-tombstone)
             node.mamba_value = mamba_value.clone()
             self.mamba_lru.insert_mru(node)
-            self._mamba_evictable += len(node.value)
+            self._mamba_evictable += len(mamba_value)
 
         return InsertResult(
             prefix_len=total_prefix, last_node=node, mamba_exist=mamba_exist
@@ -441,7 +441,7 @@ class MambaRadixCache(BasePrefixCache):
                 self._free_full_indices(node.value)
                 if node.mamba_value is not None:
                     self._free_mamba_value(node.mamba_value)
-                    mamba_evicted += n
+                    mamba_evicted += len(node.mamba_value)
                 full_evicted += n
                 self._delete_leaf(node)
 
@@ -556,7 +556,7 @@ class MambaRadixCache(BasePrefixCache):
         if mamba_value is not None:
             new_node.mamba_value = mamba_value.clone()
             self.mamba_lru.insert_mru(new_node)
-            self._mamba_evictable += len(key)
+            self._mamba_evictable += len(mamba_value)
 
         return new_node
 
@@ -595,7 +595,7 @@ class MambaRadixCache(BasePrefixCache):
 
         if node.mamba_value is not None and node in self.mamba_lru:
             self.mamba_lru.remove(node)
-            self._mamba_evictable -= len(node.key)
+            self._mamba_evictable -= len(node.mamba_value)
 
         node.value = None
         node.mamba_value = None
-- 
2.43.0


From 690fbd51e9aabbabb7ecafcbaec9b5257a157879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 015/132] fix: hybrid cache reported a state as present when
 only a shorter prefix had one

A caller told that the state exists keeps (and frees) its own slot, which the
cache had just taken over.
---
 pymllm/mem_cache/mamba_radix_cache.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 36d3d7a..74aa9a3 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -402,10 +402,6 @@ class MambaRadixCache(BasePrefixCache):
             if plen < len(node.key):
                 node = self._split_node(node.key, node, plen)
 
-            # Check if mamba state already exists
-            if node.mamba_value is not None:
-                mamba_exist = True
-
             if len(key) > 0:
                 ck = _child_key(key, self.page_size)
 
@@ -417,6 +413,8 @@ class MambaRadixCache(BasePrefixCache):
             node.mamba_value = mamba_value.clone()
             self.mamba_lru.insert_mru(node)
             self._mamba_evictable += len(mamba_value)
+        else:
+            mamba_exist = node.mamba_value is not None
 
         return InsertResult(
             prefix_len=total_prefix, last_node=node, mamba_exist=mamba_exist
-- 
2.43.0


From 46333cd3a5efd15f571a9ad25e652f826563d29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 016/132] fix: hybrid cache stored partial pages that lookups
 can never return

---
 pymllm/mem_cache/mamba_radix_cache.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 74aa9a3..98c3f91 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -384,6 +384,11 @@ class MambaRadixCache(BasePrefixCache):
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
 
+        # Only whole pages are stored; a partial page stays with the caller.
+        aligned = self._page_align_key(key)
+        if len(aligned) != len(key):
+            mamba_value = None  # state of a position the tree cannot hold
+        key, value = aligned, value[: len(aligned)]
         if len(key) == 0:
             return InsertResult()
 
-- 
2.43.0


From 93bbc8c11adc2c39f9ee42d9e6d1b3d3a13e4e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 017/132] fix: sliding-window prefix cache filed a diverging
 suffix under the wrong node

_insert_swa() split the partly matching node but went on below the child half,
so the new suffix became an extension of a prefix it does not belong to.
---
 pymllm/mem_cache/radix_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 7158eb8..a685a78 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -595,7 +595,7 @@ class RadixCache(BasePrefixCache):
             plen = _key_match(node.key, key, self.page_size)
 
             if plen < len(node.key):
-                self._split_node(node.key, node, plen)
+                node = self._split_node(node.key, node, plen)
 
             beyond_protected = prev_prefix_len < total_prefix + plen
             if beyond_protected and node.swa_tombstone:
-- 
2.43.0


From d60b19e3c7c17d4ea817825632524d467ec893ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 018/132] fix: sliding-window prefix cache and model runner
 both released duplicate KV slots

The SWA insert frees duplicates itself (it may keep the new slots instead), also
those of the protected prefix, and the model runner freed them again.  The model
runner now passes the protected length and leaves the release to the tree, which
spares the protected part and the slots a locked reader still uses.
---
 pymllm/mem_cache/radix_cache.py             | 24 +++++++++++-------
 pymllm/orchestrator/model_runner_process.py | 28 +++++++++++++++------
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index a685a78..6812ab6 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -259,7 +259,8 @@ class RadixCache(BasePrefixCache):
 
         Returns how many leading tokens were already present (the prefix
         length).  The caller is responsible for freeing duplicate KV indices
-        in the range ``[cache_protected_len, prefix_len)``.  Only whole pages
+        in the range ``[cache_protected_len, prefix_len)``; in SWA mode the
+        tree does that itself, as it may keep the new ones.  Only whole pages
         are stored: a trailing partial page stays with the caller.
 
         Parameters
@@ -578,7 +579,8 @@ class RadixCache(BasePrefixCache):
 
         When an existing node is tombstoned and the incoming *value* carries
         fresh SWA KV (i.e. beyond *swa_evicted_seqlen*), the node is
-        un-tombstoned and its value is replaced.
+        un-tombstoned and its value is replaced, unless a running request
+        still reads the old one.
         """
         now = time.monotonic()
         node.last_access_time = now
@@ -597,17 +599,21 @@ class RadixCache(BasePrefixCache):
             if plen < len(node.key):
                 node = self._split_node(node.key, node, plen)
 
-            beyond_protected = prev_prefix_len < total_prefix + plen
-            if beyond_protected and node.swa_tombstone:
-                if swa_evicted_seqlen <= total_prefix:
-                    self._free_indices(node.value[:plen])
+            # Indices before prev_prefix_len are the tree's own: only the rest
+            # of the incoming value duplicates what is stored here.
+            own = max(prev_prefix_len - total_prefix, 0)
+            if own < plen:
+                if (
+                    node.swa_tombstone
+                    and node.lock_ref == 0
+                    and swa_evicted_seqlen <= total_prefix
+                ):
+                    self._free_indices(node.value[own:plen])
                     node.value = value[:plen].clone()
                     node.swa_tombstone = False
                     self._swa_evictable_size += len(node.value)
                 else:
-                    self._free_indices(value[:plen])
-            elif beyond_protected:
-                self._free_indices(value[:plen])
+                    self._free_indices(value[own:plen])
 
             total_prefix += plen
             key = key[plen:]
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index c5e14fb..78e5911 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -554,11 +554,13 @@ class ModelRunnerProcess:
                 )
 
             key = RadixKey(input_ids)
-            result = cache.insert(key, kv_indices)
+            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
+            result = cache.insert(
+                key, kv_indices, prev_prefix_len=cache_protected_len
+            )
             new_prefix_len = result.prefix_len
 
-            # --- Step 2: free duplicates ---
-            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
+            # --- Step 2: free duplicates (the SWA tree did so itself) ---
             if _dbg:
                 logger.debug(
                     "[CACHE INSERT] rid=%s insert prefix_len=%d cache_protected=%d",
@@ -566,7 +568,9 @@ class ModelRunnerProcess:
                     new_prefix_len,
                     cache_protected_len,
                 )
-            if new_prefix_len > cache_protected_len:
+            if new_prefix_len > cache_protected_len and not getattr(
+                cache, "supports_swa", False
+            ):
                 dup_indices = kv_indices[cache_protected_len:new_prefix_len]
                 if _dbg:
                     logger.debug(
@@ -1062,11 +1066,15 @@ class ModelRunnerProcess:
                 prompt_kv = all_kv_indices[:prompt_len]
                 decode_kv = all_kv_indices[prompt_len:]
                 key = RadixKey(list(input_ids))
-                result = cache.insert(key, prompt_kv)
+                result = cache.insert(
+                    key, prompt_kv, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
                 # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                if new_prefix_len > cache_protected_len and not getattr(
+                    cache, "supports_swa", False
+                ):
                     dup_indices = prompt_kv[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
@@ -1080,11 +1088,15 @@ class ModelRunnerProcess:
                 if output_ids:
                     full_token_ids.extend(output_ids[:decode_len])
                 key = RadixKey(full_token_ids)
-                result = cache.insert(key, all_kv_indices)
+                result = cache.insert(
+                    key, all_kv_indices, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
                 # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                if new_prefix_len > cache_protected_len and not getattr(
+                    cache, "supports_swa", False
+                ):
                     dup_indices = all_kv_indices[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
-- 
2.43.0


From 5b26e560584f576e95ae5452b60bc63094ebfbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 019/132] fix: sliding-window insert did not return its node,
 so hybrid state slots leaked

---
 pymllm/mem_cache/radix_cache.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 6812ab6..0a0db49 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -278,10 +278,10 @@ class RadixCache(BasePrefixCache):
         key = self._page_align_key(key)
         value = value[: len(key)]
         if self.supports_swa:
-            plen = self._insert_swa(
+            plen, last_node = self._insert_swa(
                 self.root_node, key, value, prev_prefix_len, swa_evicted_seqlen
             )
-            return InsertResult(prefix_len=plen)
+            return InsertResult(prefix_len=plen, last_node=last_node)
         else:
             plen, last_node = self._insert_normal(self.root_node, key, value)
             return InsertResult(prefix_len=plen, last_node=last_node)
@@ -574,7 +574,7 @@ class RadixCache(BasePrefixCache):
         value: torch.Tensor,
         prev_prefix_len: int,
         swa_evicted_seqlen: int,
-    ) -> int:
+    ) -> Tuple[int, TreeNode]:
         """Insert with SWA tombstone awareness.
 
         When an existing node is tombstoned and the incoming *value* carries
@@ -585,7 +585,7 @@ class RadixCache(BasePrefixCache):
         now = time.monotonic()
         node.last_access_time = now
         if len(key) == 0:
-            return 0
+            return 0, node
 
         total_prefix = 0
         while len(key) > 0:
@@ -633,9 +633,9 @@ class RadixCache(BasePrefixCache):
                 value = value[tomb_len:]
 
             if len(key) > 0:
-                self._add_leaf(node, key, value, swa_tombstone=False)
+                node = self._add_leaf(node, key, value, swa_tombstone=False)
 
-        return total_prefix
+        return total_prefix, node
 
     # ------------------------------------------------------------------
     # Internal: tree manipulation
-- 
2.43.0


From 09eb858b1fe92df6b09e8437f523d1fa0a0f0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 020/132] fix: lookups in the sliding-window prefix cache did
 not refresh recency

---
 pymllm/mem_cache/radix_cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 0a0db49..d651e59 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -496,6 +496,8 @@ class RadixCache(BasePrefixCache):
         the sliding window, or a tombstone-free path to root).
         """
         node = self.root_node
+        now = time.monotonic()
+        node.last_access_time = now
         values: List[torch.Tensor] = []
         non_tomb_len: float = float("inf")
         best_count = 0
@@ -506,6 +508,8 @@ class RadixCache(BasePrefixCache):
             if ck not in node.children:
                 break
             child = node.children[ck]
+            child.last_access_time = now
+            child.hit_count += 1
 
             if child.swa_tombstone:
                 if non_tomb_len >= self.sliding_window_size:
-- 
2.43.0


From 3cd3f15cdf87750713544052ed7cb1ae96e04d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 021/132] fix: sliding-window eviction freed live slots and
 left evictable ancestors behind

Tombstoning must not release full-attention slots when the pool has no separate
SWA part, and removing a tombstoned parent may expose the next evictable leaf.
---
 pymllm/mem_cache/radix_cache.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index d651e59..589020b 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -314,7 +314,7 @@ class RadixCache(BasePrefixCache):
                 self._delete_leaf(node)
 
                 p = node.parent
-                if (
+                while (
                     p is not None
                     and p != self.root_node
                     and len(p.children) == 0
@@ -324,8 +324,10 @@ class RadixCache(BasePrefixCache):
                         self._free_indices(p.value)
                         full_evicted += len(p.value)
                         self._delete_leaf(p)
+                        p = p.parent
                     else:
                         heapq.heappush(heap, (p.last_access_time, p))
+                        break
 
         # Phase 2: SWA tombstone eviction (internal nodes)
         if self.supports_swa and swa_evicted < swa_num_tokens:
@@ -761,10 +763,9 @@ class RadixCache(BasePrefixCache):
 
     def _free_swa_indices(self, indices: torch.Tensor) -> None:
         if self.pool is not None and len(indices) > 0:
+            # Without a separate SWA pool the slots still hold the full KV.
             if hasattr(self.pool, "free_swa"):
                 self.pool.free_swa(indices)
-            else:
-                self.pool.free(indices)
 
     def _print_helper(self, node: TreeNode, indent: int) -> None:
         stack = [(node, indent)]
-- 
2.43.0


From 9cd80768c5919e9609aa6b640655e708129b846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 022/132] fix: sliding-window insert marked tokens without
 window KV as usable

A new suffix that lies entirely before swa_evicted_seqlen was stored as live, and
the tombstoned part of a suffix was not cut at a page boundary.
---
 pymllm/mem_cache/radix_cache.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 589020b..b8e632a 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -626,11 +626,9 @@ class RadixCache(BasePrefixCache):
             value = value[plen:]
 
         if len(key) > 0:
-            if (
-                swa_evicted_seqlen > total_prefix
-                and swa_evicted_seqlen < total_prefix + len(key)
-            ):
-                tomb_len = swa_evicted_seqlen - total_prefix
+            if swa_evicted_seqlen > total_prefix:
+                pages = -(-(swa_evicted_seqlen - total_prefix) // self.page_size)
+                tomb_len = min(pages * self.page_size, len(key))
                 self._add_leaf(
                     node, key[:tomb_len], value[:tomb_len], swa_tombstone=True
                 )
-- 
2.43.0


From a11e1f9511d4f1c93ab8fcedfdb74edc8f7b4dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 023/132] fix: evicting a tombstoned leaf counted window KV
 that was gone already

---
 pymllm/mem_cache/radix_cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index b8e632a..c3a80fb 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -310,7 +310,8 @@ class RadixCache(BasePrefixCache):
                 n = len(node.value)
                 self._free_indices(node.value)
                 full_evicted += n
-                swa_evicted += n
+                if not node.swa_tombstone:
+                    swa_evicted += n
                 self._delete_leaf(node)
 
                 p = node.parent
-- 
2.43.0


From e9a2c426eb6245f7da506a40ee1e965aa1b74198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 024/132] fix: hybrid models with paged prefix cache restored
 the state of a longer prefix

---
 pymllm/orchestrator/model_runner_process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 78e5911..893519c 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -642,7 +642,9 @@ class ModelRunnerProcess:
                 if track_slot is not None:
                     node_id = result.last_node.id
                     old_ts = self._node_id_to_gdn_track_slot.get(node_id)
-                    if old_ts is None:
+                    # The state is that of the whole prompt: a node that only
+                    # holds the prompt's whole pages must not get it.
+                    if old_ts is None and len(new_indices) == seq_len:
                         self._node_id_to_gdn_track_slot[node_id] = track_slot
                     else:
                         gdn_pool.free_track_slot(track_slot)
-- 
2.43.0


From 7c083633374b5d2a0f51eb8fd0df084f34016c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 025/132] fix: state track slots were taken and never returned
 with the prefix cache disabled

---
 pymllm/orchestrator/model_runner_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 893519c..9caedf3 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -879,7 +879,7 @@ class ModelRunnerProcess:
                 # Allocate a track slot only when the radix cache is enabled;
                 # track slots are freed via the eviction callback so they must
                 # be associated with a node, which only happens when cache is on.
-                if cache is not None:
+                if cache is not None and not isinstance(cache, ChunkCache):
                     ts = gdn_pool.alloc_track_slot()
                     if ts is not None:
                         self._rid_to_gdn_track_slot[rid] = ts
-- 
2.43.0


From 17bfdeefc1a3e430034e4239ab21b2741b507071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 026/132] fix: streamed text kept a replacement character for
 characters split across tokens

---
 pymllm/orchestrator/detokenizer_process.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/detokenizer_process.py b/pymllm/orchestrator/detokenizer_process.py
index 7b8bf26..c4ae93d 100644
--- a/pymllm/orchestrator/detokenizer_process.py
+++ b/pymllm/orchestrator/detokenizer_process.py
@@ -158,9 +158,12 @@ class DetokenizerProcess:
                 text = ""
 
             # Compute incremental delta by diffing against previous text
+            # A character whose bytes are not all there yet decodes to U+FFFD:
+            # hold it back until the rest arrives (or the request finishes).
+            stable_text = text if is_finished else text.rstrip("\ufffd")
             prev_text = self._rid_to_prev_text.get(rid, "")
-            delta_text = text[len(prev_text):]
-            self._rid_to_prev_text[rid] = text
+            delta_text = stable_text[len(prev_text):]
+            self._rid_to_prev_text[rid] = prev_text + delta_text
 
             # Clean up tracking when request finishes
             if is_finished:
-- 
2.43.0


From 599ee730897bb015131914ee4f192bb1b553ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 027/132] fix: reasoning split depended on chunking in forced
 mode and on end markers before the start

---
 pymllm/parsers/reasoning_parser.py | 35 +++++++++++++++---------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/pymllm/parsers/reasoning_parser.py b/pymllm/parsers/reasoning_parser.py
index 1f73c78..854dc3d 100644
--- a/pymllm/parsers/reasoning_parser.py
+++ b/pymllm/parsers/reasoning_parser.py
@@ -93,22 +93,21 @@ class ReasoningParser:
 
         Returns ``(reasoning_content, content)`` where either may be empty.
         """
-        start_idx = text.find(self._start)
-        end_idx = text.find(self._end)
-
-        if start_idx == -1 and not self._force:
-            return None, text
-
-        # Determine boundaries
-        if self._force and start_idx == -1:
-            # Model didn't emit explicit start tag; treat prefix as reasoning
-            reason_start = 0
+        if self._force:
+            # Reasoning starts right away; a leading start tag is optional.
+            before = ""
+            reason_start = len(text) - len(text.lstrip())
+            if text.startswith(self._start, reason_start):
+                reason_start += len(self._start)
         else:
+            start_idx = text.find(self._start)
+            if start_idx == -1:
+                return None, text
+            before = text[:start_idx]
             reason_start = start_idx + len(self._start)
 
-        before = text[:start_idx] if start_idx != -1 else ""
-
-        if end_idx != -1 and end_idx >= reason_start:
+        end_idx = text.find(self._end, reason_start)
+        if end_idx != -1:
             reasoning = text[reason_start:end_idx]
             after = text[end_idx + len(self._end) :]
         else:
@@ -141,12 +140,12 @@ class ReasoningParser:
         # In forced reasoning mode, consume the start tag if it appears
         # (the model may or may not emit it explicitly).
         if self._in_reasoning and not self._start_consumed:
-            idx = self._buffer.find(self._start)
-            if idx != -1:
-                # Start tag found — strip it and any text before it
-                self._buffer = self._buffer[idx + len(self._start) :]
+            lead = self._buffer.lstrip()
+            if lead.startswith(self._start):
+                # Leading start tag found — strip it
+                self._buffer = lead[len(self._start) :]
                 self._start_consumed = True
-            elif _could_be_partial(self._buffer, self._start):
+            elif self._start.startswith(lead):
                 # Might be a partial start tag — hold the buffer
                 return "", ""
             else:
-- 
2.43.0


From f63463500e0e45087f38211294861e279b363153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 028/132] fix: streamed reasoning lost text held back at the
 end and all reasoning with stream_reasoning=false

---
 pymllm/parsers/reasoning_parser.py | 14 ++++++++++++++
 pymllm/server/launch.py            |  4 ++++
 2 files changed, 18 insertions(+)

diff --git a/pymllm/parsers/reasoning_parser.py b/pymllm/parsers/reasoning_parser.py
index 854dc3d..2532eb0 100644
--- a/pymllm/parsers/reasoning_parser.py
+++ b/pymllm/parsers/reasoning_parser.py
@@ -13,6 +13,7 @@ Usage::
     parser = ReasoningParser("qwen3")
     for delta in deltas:
         reasoning_delta, content_delta = parser.parse_stream_chunk(delta)
+    reasoning_delta, content_delta = parser.flush()
 """
 
 from __future__ import annotations
@@ -83,6 +84,7 @@ class ReasoningParser:
         self._in_reasoning = cfg.force
         self._start_consumed = False  # True once start tag has been stripped
         self._done = False  # True once end tag has been seen
+        self._held_reasoning = ""  # stream_reasoning=False: kept until the end tag
 
     # ------------------------------------------------------------------ #
     # Non-streaming
@@ -193,10 +195,22 @@ class ReasoningParser:
                 self._buffer = ""
 
         if not self._stream_reasoning:
+            self._held_reasoning += reasoning_out
             reasoning_out = ""
+            if self._done:
+                reasoning_out, self._held_reasoning = self._held_reasoning, ""
 
         return reasoning_out, content_out
 
+    def flush(self) -> Tuple[str, str]:
+        """Return text still held back (call once, when the output has ended)."""
+        tail, self._buffer = self._buffer, ""
+        if not self._in_reasoning:
+            return "", tail
+        reasoning_out = self._held_reasoning + tail
+        self._held_reasoning = ""
+        return reasoning_out, ""
+
 
 # ---------------------------------------------------------------------------
 # Helpers
diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 19b9520..55258d8 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -965,6 +965,10 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
                         reasoning_delta, content_delta = r_parser.parse_stream_chunk(
                             raw_delta
                         )
+                    if r_parser and finish_reason is not None:
+                        tail_reasoning, tail_content = r_parser.flush()
+                        reasoning_delta += tail_reasoning
+                        content_delta += tail_content
 
                     # --- Phase 2: tool-call parser ---
                     tool_items: list = []
-- 
2.43.0


From 977db60238e65e455c7cc7684f17d8085a74e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 029/132] fix: tool-call stream missed end tags cut by a chunk
 and lost text held back at the end

---
 pymllm/parsers/tool_call_parser.py | 36 +++++++++++++++++++++---------
 pymllm/server/launch.py            |  3 +++
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/pymllm/parsers/tool_call_parser.py b/pymllm/parsers/tool_call_parser.py
index fdfe939..e14ac97 100644
--- a/pymllm/parsers/tool_call_parser.py
+++ b/pymllm/parsers/tool_call_parser.py
@@ -254,9 +254,12 @@ class ToolCallParser:
                         self._current_tool_idx += 1
                         continue  # there may be more calls
                     else:
-                        # Accumulate and stream arguments
-                        self._current_call_buf += self._buffer
-                        self._buffer = ""
+                        # Accumulate and stream arguments; a possible start of
+                        # the end token stays in the buffer
+                        keep = _partial_suffix_len(self._buffer, self._end)
+                        cut = len(self._buffer) - keep
+                        self._current_call_buf += self._buffer[:cut]
+                        self._buffer = self._buffer[cut:]
                         item = self._stream_partial_call()
                         if item is not None:
                             items.append(item)
@@ -275,13 +278,21 @@ class ToolCallParser:
     def flush(self) -> List[ToolCallItem]:
         """Flush any remaining buffered tool call (call at request end)."""
         items: List[ToolCallItem] = []
-        if self._in_call and self._current_call_buf.strip():
-            item = self._finalize_call()
-            if item is not None:
-                items.append(item)
+        if self._in_call:
+            self._current_call_buf += self._buffer
+            self._buffer = ""
+            if self._current_call_buf.strip():
+                item = self._finalize_call()
+                if item is not None:
+                    items.append(item)
             self._in_call = False
         return items
 
+    def flush_content(self) -> str:
+        """Return plain text still held back (call at request end, after :meth:`flush`)."""
+        tail, self._buffer = self._buffer, ""
+        return tail
+
     # ------------------------------------------------------------------ #
     # Internal helpers
     # ------------------------------------------------------------------ #
@@ -427,7 +438,12 @@ def _make_tool_call_id() -> str:
 
 
 def _could_be_partial(text: str, pattern: str) -> bool:
-    for i in range(1, len(pattern)):
+    return _partial_suffix_len(text, pattern) > 0
+
+
+def _partial_suffix_len(text: str, pattern: str) -> int:
+    """Length of the longest proper prefix of *pattern* that *text* ends with."""
+    for i in range(min(len(pattern) - 1, len(text)), 0, -1):
         if text.endswith(pattern[:i]):
-            return True
-    return False
+            return i
+    return 0
diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 55258d8..80c2ebb 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -1005,6 +1005,9 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
                             for tc in remaining:
                                 has_tool_calls = True
                                 yield _make_sse({"tool_calls": [tc.to_openai_dict()]})
+                            tail_content = tc_parser.flush_content()
+                            if tail_content:
+                                yield _make_sse({"content": tail_content})
                             if has_tool_calls:
                                 finish_reason = "tool_calls"
                         yield _make_sse({}, finish=finish_reason)
-- 
2.43.0


From f81c3f3d2d405fc9024d16fdc5a69d8bf1983c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 030/132] fix: a tool call whose body is not a JSON object
 crashed the response

---
 pymllm/parsers/tool_call_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/parsers/tool_call_parser.py b/pymllm/parsers/tool_call_parser.py
index e14ac97..9122802 100644
--- a/pymllm/parsers/tool_call_parser.py
+++ b/pymllm/parsers/tool_call_parser.py
@@ -305,9 +305,11 @@ class ToolCallParser:
             obj = json.loads(body)
         except json.JSONDecodeError:
             return None
+        if not isinstance(obj, dict):
+            return None
         name = obj.get("name")
         args = obj.get("arguments") or obj.get("parameters") or {}
-        if isinstance(args, dict):
+        if not isinstance(args, str):
             args = json.dumps(args, ensure_ascii=False)
         return ToolCallItem(name=name, arguments=args)
 
-- 
2.43.0


From 849e74344864bde5351a2c51a49ff4b24a6ed2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 031/132] fix: streamed tool-call names and arguments did not
 add up to the call

---
 pymllm/parsers/tool_call_parser.py | 68 +++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 11 deletions(-)

diff --git a/pymllm/parsers/tool_call_parser.py b/pymllm/parsers/tool_call_parser.py
index 9122802..0c0e07e 100644
--- a/pymllm/parsers/tool_call_parser.py
+++ b/pymllm/parsers/tool_call_parser.py
@@ -383,8 +383,11 @@ class ToolCallParser:
             parsed.tool_call_id = _make_tool_call_id()
             return parsed
 
-        # Name was already sent — emit remaining arguments
+        # Name was already sent — emit remaining arguments (of the text whose
+        # beginning was streamed, if any was)
         full_args = parsed.arguments
+        if self._prev_args_len and self._model_type != "qwen3_coder":
+            full_args = self._try_extract_args_partial(self._current_call_buf.strip())
         new_chars = full_args[self._prev_args_len :]
         if new_chars:
             return ToolCallItem(
@@ -399,8 +402,12 @@ class ToolCallParser:
         if self._model_type == "qwen3_coder":
             m = re.search(r"<function=([^>]+)>", partial)
             return m.group(1) if m else None
-        m = re.search(r'"name"\s*:\s*"([^"]+)"', partial)
-        return m.group(1) if m else None
+        raw = _scan_json_members(partial).get("name", "")
+        try:
+            name = json.loads(raw)
+        except json.JSONDecodeError:
+            return None
+        return name if isinstance(name, str) else None
 
     def _try_extract_args_partial(self, partial: str) -> Optional[str]:
         """Try to extract partial arguments from call body."""
@@ -408,7 +415,7 @@ class ToolCallParser:
             # Build JSON incrementally from <parameter=K>V</parameter> tags
             params: Dict[str, Any] = {}
             for pm in re.finditer(
-                r"<parameter=([^>]+)>(.*?)(?:</parameter>)",
+                r"<parameter=([^>]+)>(.*?)(?:</parameter>|(?=<parameter=)|(?=</function>))",
                 partial,
                 re.DOTALL,
             ):
@@ -419,14 +426,14 @@ class ToolCallParser:
                 except (json.JSONDecodeError, ValueError):
                     params[key] = val
             if params:
-                return json.dumps(params, ensure_ascii=False)
+                # More parameters may follow: leave the object open
+                return json.dumps(params, ensure_ascii=False)[:-1]
             return None
-        m = re.search(r'"arguments"\s*:\s*(\{.*)', partial, re.DOTALL)
-        if m:
-            return m.group(1)
-        m = re.search(r'"parameters"\s*:\s*(\{.*)', partial, re.DOTALL)
-        if m:
-            return m.group(1)
+        members = _scan_json_members(partial)
+        raw = members.get("arguments", members.get("parameters"))
+        # Only a non-empty object is streamed as it arrives
+        if raw is not None and re.match(r'\{\s*"', raw):
+            return raw
         return None
 
 
@@ -439,6 +446,45 @@ def _make_tool_call_id() -> str:
     return f"call_{uuid.uuid4().hex[:24]}"
 
 
+def _scan_json_members(text: str) -> Dict[str, str]:
+    """Raw values of the top-level members of a JSON object whose end may be missing.
+
+    The last value is cut off where *text* ends.
+    """
+    members: Dict[str, str] = {}
+    decoder = json.JSONDecoder()
+    pos = 0
+
+    def skip_ws() -> str:
+        nonlocal pos
+        while pos < len(text) and text[pos] in " \t\r\n":
+            pos += 1
+        return text[pos : pos + 1]
+
+    if skip_ws() != "{":
+        return members
+    while True:
+        pos += 1
+        skip_ws()
+        try:
+            key, pos = decoder.raw_decode(text, pos)
+        except json.JSONDecodeError:
+            return members
+        if not isinstance(key, str) or skip_ws() != ":":
+            return members
+        pos += 1
+        skip_ws()
+        start = pos
+        try:
+            _, pos = decoder.raw_decode(text, start)
+        except json.JSONDecodeError:
+            members[key] = text[start:]
+            return members
+        members[key] = text[start:pos]
+        if skip_ws() != ",":
+            return members
+
+
 def _could_be_partial(text: str, pattern: str) -> bool:
     return _partial_suffix_len(text, pattern) > 0
 
-- 
2.43.0


From 3031dcc6b3e7716fca549f89d33acfbac00d9ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 032/132] fix: a malformed tool call left a gap in the streamed
 call indices

---
 pymllm/parsers/tool_call_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymllm/parsers/tool_call_parser.py b/pymllm/parsers/tool_call_parser.py
index 0c0e07e..8f11170 100644
--- a/pymllm/parsers/tool_call_parser.py
+++ b/pymllm/parsers/tool_call_parser.py
@@ -251,7 +251,8 @@ class ToolCallParser:
                         if item is not None:
                             items.append(item)
                         self._in_call = False
-                        self._current_tool_idx += 1
+                        if item is not None or self._name_sent:
+                            self._current_tool_idx += 1
                         continue  # there may be more calls
                     else:
                         # Accumulate and stream arguments; a possible start of
-- 
2.43.0


From 4da27468c3f677fec7c25d090b297ac10eb6a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 033/132] fix: an abort could overtake its own request on the
 way to the tokenizer

---
 pymllm/orchestrator/request_response_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index f59ffa5..111458a 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -156,7 +156,8 @@ class RequestResponseProcess:
             state.out_list.append({"rid": rid, "error": "aborted", "finished": True})
             state.event.set()
         if self._send_to_tokenizer is not None:
-            await self._send_to_tokenizer.send_pyobj({"rid": rid, "abort": True})
+            # Same queue as the requests, so that it cannot overtake its request
+            await self._request_queue.put({"rid": rid, "abort": True})
 
     async def shutdown(self) -> None:
         if self._loop_task is not None:
-- 
2.43.0


From 8db428f531707eee5ef27eb1a61b7d39bdcee505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 034/132] fix: a batch of one request was sent with a list as
 its id and never answered

---
 pymllm/engine/io_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/engine/io_struct.py b/pymllm/engine/io_struct.py
index 06c8d78..f948af3 100644
--- a/pymllm/engine/io_struct.py
+++ b/pymllm/engine/io_struct.py
@@ -85,7 +85,7 @@ class GenerateReqInput(BaseReq):
     def __getitem__(self, i: int) -> "GenerateReqInput":
         if i < 0 or i >= self.batch_size:
             raise IndexError(f"index {i} out of range for batch size {self.batch_size}")
-        if self.batch_size == 1:
+        if self.is_single:
             return self
         return GenerateReqInput(
             rid=self._pick(self.rid, i),
-- 
2.43.0


From 9f1aac857c720f143e1925f1382afba4c602c2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 035/132] fix: batch fields of the wrong length were accepted
 and lost or crossed requests

---
 pymllm/engine/io_struct.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pymllm/engine/io_struct.py b/pymllm/engine/io_struct.py
index f948af3..f35ecee 100644
--- a/pymllm/engine/io_struct.py
+++ b/pymllm/engine/io_struct.py
@@ -53,6 +53,7 @@ class GenerateReqInput(BaseReq):
     def normalize_batch_and_arguments(self) -> None:
         self._validate_inputs()
         self._determine_batch_size()
+        self._validate_per_item_fields()
 
     def _validate_inputs(self) -> None:
         has_text = self.text is not None
@@ -82,6 +83,37 @@ class GenerateReqInput(BaseReq):
             self.is_single = False
             self.batch_size = len(self.input_ids)
 
+    # Fields that never hold a list for one request.
+    _PER_ITEM_FIELDS = (
+        "rid",
+        "sampling_params",
+        "return_logprob",
+        "logprob_start_len",
+        "top_logprobs_num",
+        "lora_path",
+        "session_params",
+    )
+    # Fields that may hold a list for one request, but one entry per item in a batch.
+    _MEDIA_FIELDS = ("image_data", "video_data", "audio_data")
+
+    def _validate_per_item_fields(self) -> None:
+        names = self._PER_ITEM_FIELDS
+        if not self.is_single:
+            names += self._MEDIA_FIELDS
+        for name in names:
+            value = getattr(self, name)
+            if not isinstance(value, list):
+                continue
+            if len(value) != self.batch_size:
+                raise ValueError(
+                    f"`{name}` has {len(value)} entries for {self.batch_size} request(s)."
+                )
+            if self.is_single:
+                setattr(self, name, value[0])
+        if not self.is_single and self.rid is not None:
+            if not isinstance(self.rid, list) or len(set(self.rid)) != self.batch_size:
+                raise ValueError("`rid` of a batch must list one distinct id per item.")
+
     def __getitem__(self, i: int) -> "GenerateReqInput":
         if i < 0 or i >= self.batch_size:
             raise IndexError(f"index {i} out of range for batch size {self.batch_size}")
-- 
2.43.0


From f49be7fc9705a8d3ca5aaaa9d5036661fbd2a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 036/132] fix: a second request with a live request's id
 hijacked its results

---
 pymllm/orchestrator/request_response_process.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index 111458a..32512ac 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -126,6 +126,11 @@ class RequestResponseProcess:
         if max_queued is not None and self._request_queue.qsize() >= max_queued:
             raise RuntimeError("Server overloaded: too many queued requests")
 
+        new_rids = request.rid if isinstance(request.rid, list) else [request.rid]
+        for rid in new_rids:
+            if rid in self._rid_to_state:
+                raise ValueError(f"A request with rid {rid!r} is already running")
+
         if request.is_single:
             rid = request.rid if isinstance(request.rid, str) else request.rid[0]
             state = ReqState()
-- 
2.43.0


From f54be6ba39b70cbd646e53e3da35b5e1e7a69bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 037/132] fix: the second synchronous generate() hung and
 finished requests were never forgotten

---
 pymllm/engine/launch.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/pymllm/engine/launch.py b/pymllm/engine/launch.py
index 8fd39ca..f6b2cdb 100644
--- a/pymllm/engine/launch.py
+++ b/pymllm/engine/launch.py
@@ -128,6 +128,9 @@ def _get_model_default_max_new_tokens(hf_config) -> Optional[int]:
 
 
 class Engine:
+    # Event loop shared by all synchronous generate() calls.
+    _sync_loop: Optional[asyncio.AbstractEventLoop] = None
+
     def __init__(self):
         self._subprocesses: List[mp.Process] = []
         self._rr_process: Optional[RequestResponseProcess] = None
@@ -390,22 +393,25 @@ class Engine:
         async def _run() -> Union[Dict[str, Any], List[Dict[str, Any]]]:
             max_queued = get_global_config().server.max_queued_requests
             result = await self._rr_process.add_request(request, max_queued=max_queued)
-            if request.is_single:
-                single_rid = rid if isinstance(rid, str) else rid[0]
-                return await self._wait_for_final_result(single_rid, result)  # type: ignore[arg-type]
-            # Batch: wait for every sub-request concurrently.
             rids_list: List[str] = rid if isinstance(rid, list) else [rid]  # type: ignore[assignment]
-            states: List[ReqState] = result  # type: ignore[assignment]
-            outputs = await asyncio.gather(
-                *(self._wait_for_final_result(r, s) for r, s in zip(rids_list, states))
-            )
-            return list(outputs)
+            try:
+                if request.is_single:
+                    return await self._wait_for_final_result(rids_list[0], result)  # type: ignore[arg-type]
+                # Batch: wait for every sub-request concurrently.
+                states: List[ReqState] = result  # type: ignore[assignment]
+                outputs = await asyncio.gather(
+                    *(self._wait_for_final_result(r, s) for r, s in zip(rids_list, states))
+                )
+                return list(outputs)
+            finally:
+                for r in rids_list:
+                    self._rr_process.remove_state(r)
 
-        loop = asyncio.new_event_loop()
-        try:
-            return loop.run_until_complete(_run())
-        finally:
-            loop.close()
+        # The front end's background tasks and queues live on the loop of the
+        # first call, so every call has to use that loop.
+        if self._sync_loop is None:
+            self._sync_loop = asyncio.new_event_loop()
+        return self._sync_loop.run_until_complete(_run())
 
     async def generate_async(
         self,
@@ -569,8 +575,9 @@ class Engine:
                 # schedule cleanup as a fire-and-forget task.
                 loop.create_task(self._rr_process.shutdown())
             except RuntimeError:
-                # No running loop — create a temporary one for cleanup.
-                loop = asyncio.new_event_loop()
+                # No running loop — use the one of generate(), or a temporary one.
+                loop = self._sync_loop or asyncio.new_event_loop()
+                self._sync_loop = None
                 try:
                     loop.run_until_complete(self._rr_process.shutdown())
                 finally:
-- 
2.43.0


From 507522e2e1ce76cd6cdf30825ad6857649f8e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 038/132] fix: the CUDA IPC staging pool could never be created

---
 pymllm/orchestrator/cuda_ipc_transport.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 938132c..4444809 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -205,11 +205,11 @@ class MmItemMemoryPool:
                 memory_size, dtype=torch.int8, device=f"cuda:{device}"
             ).contiguous()
 
+        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
+        self._sync_pool: List[ShmSyncBuffer] = []
         init_chunk = MmItemMemoryChunk((0, memory_size), self._new_sync_buffer())
         self.available_chunks: List[MmItemMemoryChunk] = [init_chunk]
         self.occupied_chunks: List[MmItemMemoryChunk] = []
-        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
-        self._sync_pool: List[ShmSyncBuffer] = []
 
         self._recycler = threading.Thread(
             target=self._recycle_loop,
-- 
2.43.0


From 09f970d0ba6791ef6f691d402331c5243927e514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 039/132] fix: a namedtuple among the multimodal inputs crashed
 the tokenizer

---
 pymllm/orchestrator/cuda_ipc_transport.py  | 11 +++++++++--
 pymllm/orchestrator/shared_memory_queue.py |  5 +++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 4444809..b6198d3 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -547,6 +547,13 @@ class TransportProxyTensor(torch.Tensor):
 # ---------------------------------------------------------------------------
 
 
+def rebuild_sequence(data: Any, items: List[Any]) -> Any:
+    """Return a sequence of the same type as *data* (list, tuple, namedtuple)."""
+    if hasattr(data, "_fields"):  # namedtuple: one argument per field
+        return type(data)(*items)
+    return type(data)(items)
+
+
 def wrap_mm_inputs_for_ipc(
     mm_inputs: Optional[Dict[str, Any]],
     transport_mode: TensorTransportMode,
@@ -580,7 +587,7 @@ def _wrap_recursive(
         return {k: _wrap_recursive(v, transport_mode, pool) for k, v in data.items()}
     elif isinstance(data, (list, tuple)):
         wrapped = [_wrap_recursive(item, transport_mode, pool) for item in data]
-        return type(data)(wrapped)
+        return rebuild_sequence(data, wrapped)
     else:
         return data
 
@@ -643,6 +650,6 @@ def _unwrap_recursive(data: Any, device_index: Optional[int]) -> Any:
         return {k: _unwrap_recursive(v, device_index) for k, v in data.items()}
     elif isinstance(data, (list, tuple)):
         result = [_unwrap_recursive(item, device_index) for item in data]
-        return type(data)(result)
+        return rebuild_sequence(data, result)
     else:
         return data
diff --git a/pymllm/orchestrator/shared_memory_queue.py b/pymllm/orchestrator/shared_memory_queue.py
index 2f006bd..428e381 100644
--- a/pymllm/orchestrator/shared_memory_queue.py
+++ b/pymllm/orchestrator/shared_memory_queue.py
@@ -57,6 +57,7 @@ import torch
 from pymllm.orchestrator.cuda_ipc_transport import (
     MmItemMemoryPool,
     TensorTransportMode,
+    rebuild_sequence,
     unwrap_mm_inputs_from_ipc,
     wrap_mm_inputs_for_ipc,
 )
@@ -270,7 +271,7 @@ class TensorQueue:
             return {k: TensorQueue._make_tensors_shareable(v) for k, v in data.items()}
         elif isinstance(data, (list, tuple)):
             result = [TensorQueue._make_tensors_shareable(item) for item in data]
-            return type(data)(result)
+            return rebuild_sequence(data, result)
         else:
             return data
 
@@ -287,6 +288,6 @@ class TensorQueue:
             return {k: TensorQueue._share_cpu_tensors(v) for k, v in data.items()}
         elif isinstance(data, (list, tuple)):
             result = [TensorQueue._share_cpu_tensors(item) for item in data]
-            return type(data)(result)
+            return rebuild_sequence(data, result)
         else:
             return data
-- 
2.43.0


From cd07ff2b8ad5d93459cac712efb7eb7a29d909a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 040/132] fix: scalar and non-contiguous GPU tensors could not
 be staged

---
 pymllm/orchestrator/cuda_ipc_transport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index b6198d3..f432713 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -434,7 +434,7 @@ class CudaIpcTensorTransportProxy:
                 result = torch.empty(
                     h["target_shape"], dtype=h["target_dtype"], device=target_device
                 ).contiguous()
-                result.view(torch.int8).view(-1).copy_(slice_tensor)
+                result.view(-1).view(torch.int8).copy_(slice_tensor)
 
             # Signal sender that the chunk can be recycled
             _increment_sync_flag(self.sync_data_meta)
@@ -606,7 +606,9 @@ def _wrap_cuda_tensor(
         sync_meta, pool_slice = pool.get_slice_with_flag(tensor)
         if pool_slice is not None:
             # Copy tensor bytes into the pool slice
-            pool_slice.copy_(tensor.view(torch.int8).view(-1), non_blocking=True)
+            pool_slice.copy_(
+                tensor.contiguous().view(-1).view(torch.int8), non_blocking=True
+            )
             return CudaIpcTensorTransportProxy(
                 data=pool_slice,
                 info_data=tensor,
-- 
2.43.0


From 6d72681876e82af296fd35cc58d49f340609d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 041/132] fix: tensors whose staging slice cannot be exported
 arrived as raw bytes and kept their slice

---
 pymllm/orchestrator/cuda_ipc_transport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index f432713..dfa0204 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -354,7 +354,7 @@ class CudaIpcTensorTransportProxy:
        reclaim the pool slice.
 
     Fallback: if ``_share_cuda_()`` fails (e.g. TP ranks), ``tensor_data`` holds
-    the raw tensor (which will be pickled the normal way, incurring serialization cost).
+    the source tensor (which will be pickled the normal way, incurring serialization cost).
     """
 
     def __init__(
@@ -400,7 +400,7 @@ class CudaIpcTensorTransportProxy:
                 "falling back to direct tensor.",
                 exc,
             )
-            return {"ipc_handle": None, "tensor_data": data}
+            return {"ipc_handle": None, "tensor_data": info_data}
 
     def reconstruct_on_device(self, device_index: Optional[int] = None) -> torch.Tensor:
         """Map IPC memory and copy into a new local tensor.
@@ -442,6 +442,8 @@ class CudaIpcTensorTransportProxy:
             result = state["tensor_data"]
             if device_index is not None:
                 result = result.to(f"cuda:{device_index}", non_blocking=True)
+            # The pool chunk was not used; let the sender recycle it
+            _increment_sync_flag(self.sync_data_meta)
         else:
             raise RuntimeError("CudaIpcTensorTransportProxy: invalid state")
 
-- 
2.43.0


From 6395718a9d3ad9b7641349d237b8b758ae6f749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 042/132] fix: request ids with a slash or of great length
 killed the tokenizer in shared-queue mode

---
 pymllm/orchestrator/shared_memory_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/shared_memory_queue.py b/pymllm/orchestrator/shared_memory_queue.py
index 428e381..e19294b 100644
--- a/pymllm/orchestrator/shared_memory_queue.py
+++ b/pymllm/orchestrator/shared_memory_queue.py
@@ -47,6 +47,7 @@ from __future__ import annotations
 
 import logging
 import pickle
+import re
 import uuid
 from multiprocessing import Queue
 from multiprocessing.shared_memory import SharedMemory
@@ -86,7 +87,9 @@ class SharedMemoryManager:
         """
         data = pickle.dumps(metadata)
         size = len(data)
-        shm_name = f"pymllm_meta_{rid}_{uuid.uuid4().hex[:8]}"
+        # The request ID is chosen by the client: keep only what a name may hold
+        safe_rid = re.sub(r"[^A-Za-z0-9_.-]", "_", str(rid))[:64]
+        shm_name = f"pymllm_meta_{safe_rid}_{uuid.uuid4().hex[:8]}"
         try:
             shm = SharedMemory(name=shm_name, create=True, size=size)
             shm.buf[:size] = data
-- 
2.43.0


From acfef9570c701763f986bc21267df97b70b01362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 043/132] fix: a request that cannot be tokenized took the
 whole server down

---
 pymllm/orchestrator/tokenizer_process.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/tokenizer_process.py b/pymllm/orchestrator/tokenizer_process.py
index e0e4139..d7ba61d 100644
--- a/pymllm/orchestrator/tokenizer_process.py
+++ b/pymllm/orchestrator/tokenizer_process.py
@@ -134,7 +134,20 @@ class TokenizerProcess:
         )
         while True:
             raw_request: Dict[str, Any] = self._recv_from_rr.recv_pyobj()
-            tokenized = self._tokenize(raw_request)
+            try:
+                tokenized = self._tokenize(raw_request)
+            except Exception as exc:
+                # One bad request must not take the server down: pass it on
+                # without a prompt, which the scheduler answers with an abort.
+                rid = raw_request.get("rid")
+                logger.error("Cannot tokenize request %s: %s", rid, exc, exc_info=True)
+                tokenized = TokenizedGenerateReqInput(
+                    rid=rid,
+                    input_text="",
+                    input_ids=[],
+                    mm_inputs=None,
+                    sampling_params={},
+                )
 
             if self._enable_shared_queue and self._shared_queue is not None:
                 # Shared queue fast path
-- 
2.43.0


From 3acbe4dadcfa74c415ce6eecc33a6df9b56862e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 044/132] fix: sampling crashed for the default top_k and for a
 top_k above the vocabulary size

---
 pymllm/executor/model_runner.py | 6 +++++-
 pymllm/layers/sampling.py       | 8 ++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pymllm/executor/model_runner.py b/pymllm/executor/model_runner.py
index 7e1cf6d..28270a8 100644
--- a/pymllm/executor/model_runner.py
+++ b/pymllm/executor/model_runner.py
@@ -1523,7 +1523,11 @@ class ModelRunner:
         has_top_p = top_ps is not None
 
         if has_top_k or has_top_p:
-            k = top_ks if has_top_k else logits.shape[-1]
+            vocab_size = logits.shape[-1]
+            k = vocab_size
+            if has_top_k:
+                # top_k <= 0 means "no limit"
+                k = torch.where(top_ks > 0, top_ks, vocab_size).clamp(max=vocab_size)
             p = top_ps if has_top_p else 1.0
             next_token_ids = top_k_top_p_sampling_from_probs(probs, k, p)
         else:
diff --git a/pymllm/layers/sampling.py b/pymllm/layers/sampling.py
index 26c769f..189c43a 100644
--- a/pymllm/layers/sampling.py
+++ b/pymllm/layers/sampling.py
@@ -569,13 +569,13 @@ def _torch_top_k_renorm_probs(
     """Pure-torch top-k renormalization (operates on float32)."""
     if isinstance(top_k, int):
         # uniform top_k across batch
-        topk_vals, _ = torch.topk(probs, top_k, dim=-1)
+        topk_vals, _ = torch.topk(probs, min(top_k, probs.shape[-1]), dim=-1)
         threshold = topk_vals[:, -1:]  # (B, 1)
     else:
         # per-request top_k: use sorting
         sorted_probs, _ = torch.sort(probs, dim=-1, descending=True)
         # gather the k-th value for each row
-        k_indices = (top_k.long() - 1).unsqueeze(-1)  # (B, 1)
+        k_indices = (top_k.long().clamp(max=probs.shape[-1]) - 1).unsqueeze(-1)  # (B, 1)
         threshold = sorted_probs.gather(1, k_indices)  # (B, 1)
 
     mask = probs < threshold
@@ -612,11 +612,11 @@ def top_k_mask_logits(
         return _fi_sampling.top_k_mask_logits(logits, top_k)
 
     if isinstance(top_k, int):
-        topk_vals, _ = torch.topk(logits, top_k, dim=-1)
+        topk_vals, _ = torch.topk(logits, min(top_k, logits.shape[-1]), dim=-1)
         threshold = topk_vals[:, -1:]
     else:
         sorted_logits, _ = torch.sort(logits, dim=-1, descending=True)
-        k_indices = (top_k.long() - 1).unsqueeze(-1)
+        k_indices = (top_k.long().clamp(max=logits.shape[-1]) - 1).unsqueeze(-1)
         threshold = sorted_logits.gather(1, k_indices)
 
     mask = logits < threshold
-- 
2.43.0


From 93b9e100a3cfd42d78515600358e0235071733b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 045/132] fix: greedy requests batched with sampled ones could
 get another token than their arg-max

---
 pymllm/executor/model_runner.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pymllm/executor/model_runner.py b/pymllm/executor/model_runner.py
index 28270a8..ac43518 100644
--- a/pymllm/executor/model_runner.py
+++ b/pymllm/executor/model_runner.py
@@ -1533,6 +1533,15 @@ class ModelRunner:
         else:
             next_token_ids = sampling_from_probs(probs)
 
+        # Greedy requests in a mixed batch get their arg-max, not a draw from
+        # an almost-greedy distribution.
+        if temperatures is not None:
+            next_token_ids = torch.where(
+                temperatures < 1e-6,
+                logits.argmax(dim=-1).to(next_token_ids.dtype),
+                next_token_ids,
+            )
+
         return next_token_ids
 
     # ------------------------------------------------------------------
-- 
2.43.0


From f2e7cd7a3e759e8bfcb3e9afff63913642f05318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 046/132] fix: speculative sampling counted the resampled token
 as an emitted draft token

---
 pymllm/layers/sampling.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pymllm/layers/sampling.py b/pymllm/layers/sampling.py
index 189c43a..9cbbeca 100644
--- a/pymllm/layers/sampling.py
+++ b/pymllm/layers/sampling.py
@@ -721,17 +721,14 @@ def _torch_chain_speculative_sampling(
             p_target = target_probs[b, t, draft_tok].item()
 
             # independent acceptance check (for the metric)
-            if p_target >= p_draft:
+            r = torch.rand(1, generator=generator, device=device).item()
+            accepted = r < min(1.0, p_target / max(p_draft, 1e-10))
+            if accepted:
                 accepted_count[b] += 1
-            else:
-                r = torch.rand(1, generator=generator, device=device).item()
-                if r < p_target / max(p_draft, 1e-10):
-                    accepted_count[b] += 1
 
             # sequential chain: accept / reject
             if all_accepted:
-                r = torch.rand(1, generator=generator, device=device).item()
-                if r < min(1.0, p_target / max(p_draft, 1e-10)):
+                if accepted:
                     output_ids[b, t] = draft_tok
                     emitted_count[b] += 1
                 else:
@@ -748,7 +745,6 @@ def _torch_chain_speculative_sampling(
                         diff.unsqueeze(0), num_samples=1, generator=generator
                     ).item()
                     output_ids[b, t] = resampled
-                    emitted_count[b] += 1
                     all_accepted = False
 
         # bonus token (sampled from target at position after last emitted)
-- 
2.43.0


From 79d1556eef8894fff4525e65e3516299e33dd11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 047/132] fix: malformed sampling parameters of one request
 took the whole server down

---
 pymllm/orchestrator/scheduler_process.py | 39 +++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index bc5443b..8f21504 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -82,6 +82,33 @@ class IdleSleeper:
         self.poller.poll(self.poll_timeout_ms)
 
 
+def _sampling_params_error(sp: Dict[str, Any]) -> Optional[str]:
+    """Return why *sp* cannot be used for sampling, or None if it can.
+
+    A value the model runner cannot turn into a tensor, or that leaves no
+    distribution to draw from, would end the scheduler for every request.
+    """
+    for name in (
+        "max_new_tokens",
+        "temperature",
+        "top_p",
+        "top_k",
+        "repetition_penalty",
+        "frequency_penalty",
+        "presence_penalty",
+    ):
+        value = sp.get(name, 1)
+        if not isinstance(value, (int, float)) or not abs(value) < 2**31:
+            return f"{name} must be a finite number, got {value!r}"
+    if sp.get("temperature", 1.0) < 0:
+        return "temperature must not be negative"
+    if sp.get("repetition_penalty", 1.0) <= 0:
+        return "repetition_penalty must be positive"
+    if not isinstance(sp.get("stop_token_ids", []), (list, tuple)):
+        return "stop_token_ids must be a list"
+    return None
+
+
 # ======================================================================
 # Req -- per-request state tracker
 # ======================================================================
@@ -631,10 +658,15 @@ class SchedulerProcess:
             raw = self._waiting_queue.popleft()
 
             # Merge EOS token into stop_token_ids if not already present
-            sp = dict(raw.sampling_params) if raw.sampling_params else {}
+            sp = {
+                k: v for k, v in (raw.sampling_params or {}).items() if v is not None
+            }
             # Inject model-aware default for max_new_tokens when not provided
             if "max_new_tokens" not in sp:
                 sp["max_new_tokens"] = self._default_max_new_tokens
+            sp_error = _sampling_params_error(sp)
+            if sp_error is not None:
+                sp = {"max_new_tokens": 0}
             stop_ids = list(sp.get("stop_token_ids", []))
             for eid in self._eos_token_ids:
                 if eid not in stop_ids:
@@ -664,6 +696,11 @@ class SchedulerProcess:
                 req.abort()
                 self._collect_finished_output(req)
                 continue
+            if sp_error is not None:
+                logger.warning("Rejecting request %s: %s", req.rid, sp_error)
+                req.abort()
+                self._collect_finished_output(req)
+                continue
             self._pending_queue.append(req)
             logger.debug("Processed input request %s (len=%d)", req.rid, req.seq_len)
 
-- 
2.43.0


From a3fb13152a78b6f100f7893f185838354537cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 048/132] fix: prefix-tree keys of different namespaces
 compared equal

---
 mllm/engine/prefix_cache/RadixTree.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/prefix_cache/RadixTree.cpp b/mllm/engine/prefix_cache/RadixTree.cpp
index d9049c5..4d88566 100644
--- a/mllm/engine/prefix_cache/RadixTree.cpp
+++ b/mllm/engine/prefix_cache/RadixTree.cpp
@@ -11,7 +11,9 @@ namespace mllm::prefix_cache {
 RadixTreeNodeKey::RadixTreeNodeKey(const VectorView<int64_t>& token_ids_tmp, int64_t extra_key_tmp)
     : token_ids(token_ids_tmp), extra_key(extra_key_tmp) {}
 
-bool RadixTreeNodeKey::operator==(const RadixTreeNodeKey& o) const noexcept { return token_ids == o.token_ids; }
+bool RadixTreeNodeKey::operator==(const RadixTreeNodeKey& o) const noexcept {
+  return extra_key == o.extra_key && token_ids == o.token_ids;
+}
 
 bool RadixTreeNodeKey::operator!=(const RadixTreeNodeKey& o) const noexcept { return !(*this == o); }
 
-- 
2.43.0


From 78a90d09bef7644920399dd87fa73e2f828b758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 049/132] fix: prefix-tree lookup and insert went on below a
 partly matched edge

---
 mllm/engine/prefix_cache/RadixTree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mllm/engine/prefix_cache/RadixTree.cpp b/mllm/engine/prefix_cache/RadixTree.cpp
index 4d88566..d1c5e86 100644
--- a/mllm/engine/prefix_cache/RadixTree.cpp
+++ b/mllm/engine/prefix_cache/RadixTree.cpp
@@ -72,6 +72,8 @@ bool RadixTree::insert(const RadixTreeNodeKey& key, const RadixTreeNodeValue& va
     }
     if (!found) break;
     cur = deepest;
+    // Only a fully matched edge leads to its children
+    if (edge_matched < deepest->key.token_ids.size()) break;
   }
 
   if (matched == key.token_ids.size()) {
@@ -137,6 +139,8 @@ RadixSearchResult RadixTree::search(const RadixTreeNodeKey& key) {
     }
 
     if (!found_next_child) { break; }
+    // Only a fully matched edge leads to its children
+    if (path.back().second < cur_node->key.token_ids.size()) { break; }
   }
 
   if (cur_searched_len) {
-- 
2.43.0


From 2b0b320dc1d1d6fb3e2d37d47e8c151434b40063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 050/132] fix: freeing a KV address released the same lane of
 another page

---
 mllm/engine/prefix_cache/ZenFS.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 604be3f..6553e0e 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -596,15 +596,17 @@ void ZenFileSystem::free(vp_addr_t addr) {
   // Extract blob address from the virtual address
   vp_blob_addr_t blob_addr = getBlobAddr(addr, options_.page_bits, options_.lane_bits);
 
-  // Get the lane address to determine which bit to free in the bitmap
+  // Get the page and lane address to determine which bit to free in the bitmap
+  vp_page_addr_t page_addr = getPageAddr(addr, options_.page_bits, options_.lane_bits);
   vp_lane_addr_t lane_addr = getLaneAddr(addr, options_.page_bits, options_.lane_bits);
 
   // Find the blob
   auto it = blob_.find(blob_addr);
   if (it != blob_.end()) {
     // Calculate which word in the bitmap and which bit within that word
-    size_t word_index = lane_addr / 64;
-    size_t bit_index = lane_addr % 64;
+    size_t bit = (static_cast<size_t>(page_addr) << options_.lane_bits) | lane_addr;
+    size_t word_index = bit / 64;
+    size_t bit_index = bit % 64;
 
     // Set the bit to 1 to indicate it's free
     if (word_index < it->second.free_lanes_bits_map.size()) {
-- 
2.43.0


From 820744ef6b1ad8248b77e70079be8affb11deabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 051/132] fix: KV lanes past the end of a blob were handed out

---
 mllm/engine/prefix_cache/ZenFS.cpp | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 6553e0e..85d0be6 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -292,6 +292,18 @@ void ZenFSBlobMMAPFile::adviseDontNeed() { ::DiscardVirtualMemory(addr_, size_);
 void ZenFSBlobMMAPFile::adviseOffline() { ::DiscardVirtualMemory(addr_, size_); }
 #endif
 
+namespace MLLM_ANONYMOUS_NAMESPACE {
+
+// One bit per lane of a blob, all free. Bits past the last lane are never free.
+std::vector<uint64_t> freeLanesBitsMap(size_t bits) {
+  size_t total_bits = size_t(1) << bits;
+  std::vector<uint64_t> ret((total_bits + 64 - 1) / 64, ~0ULL);
+  if (total_bits % 64) { ret.back() = (1ULL << (total_bits % 64)) - 1; }
+  return ret;
+}
+
+}  // namespace MLLM_ANONYMOUS_NAMESPACE
+
 void ZenFileSystem::initialize(const ZenFileSystemOptions& options) {
   options_ = options;
   per_kv_token_mem_size_ = bytesOfType(options.k_dtype) * options.per_k_token_ele / lanesOfType(options.k_dtype);
@@ -324,16 +336,13 @@ void ZenFileSystem::initialize(const ZenFileSystemOptions& options) {
 
   // X. Create the first block Tensor for KV
   {
-    size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-    size_t uint64_count = (total_bits + 64 - 1) / 64;
-
     // The first blob is in memory
     blob_.insert({blob_.size(), ZenFSBlob{.data = Tensor::zeros({(1 << (options_.page_bits + options_.lane_bits)),
                                                                  (int32_t)options.per_k_token_ele},
                                                                 options.k_dtype),
                                           .type = ZenFSBlobType::kInMemory,
                                           .mmap_file = std::nullopt,
-                                          .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                          .free_lanes_bits_map = freeLanesBitsMap(options_.page_bits + options_.lane_bits)}});
   }
 }
 
@@ -491,9 +500,7 @@ void ZenFileSystem::recover(const std::string& working_dir) {
       }
 
       // Initialize free lanes bitmap
-      size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-      size_t uint64_count = (total_bits + 64 - 1) / 64;
-      blob.free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL);
+      blob.free_lanes_bits_map = freeLanesBitsMap(options_.page_bits + options_.lane_bits);
 
       // Insert blob into map
       blob_.insert({blob_id, std::move(blob)});
@@ -639,9 +646,6 @@ char* ZenFileSystem::access(vp_addr_t addr) {
 
 void ZenFileSystem::_createBlobOnDisk() {
   // Calculate blob size.
-  size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-  size_t uint64_count = (total_bits + sizeof(uint64_t) - 1) / sizeof(uint64_t);
-
   // Blob size is not K and V.
   // Is 1 << (options_.page_bits + options_.lane_bits) * elements * sizeof(dtype).
   // K and V shared one blob.
@@ -668,14 +672,11 @@ void ZenFileSystem::_createBlobOnDisk() {
   blob_.insert({(uint32_t)this_tensor_blob_id, ZenFSBlob{.data = std::move(tensor),
                                                          .type = ZenFSBlobType::kOnDiskMMAP,
                                                          .mmap_file = mmap_file,
-                                                         .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                                         .free_lanes_bits_map = freeLanesBitsMap(options_.page_bits + options_.lane_bits)}});
 }
 
 void ZenFileSystem::_createBlobOnAnonymousFile() {
   // Calculate blob size.
-  size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-  size_t uint64_count = (total_bits + 64 - 1) / 64;
-
   // Blob size is not K and V.
   // Is 1 << (options_.page_bits + options_.lane_bits) * elements * sizeof(dtype).
   // K and V shared one blob.
@@ -701,7 +702,7 @@ void ZenFileSystem::_createBlobOnAnonymousFile() {
   blob_.insert({(uint32_t)this_tensor_blob_id, ZenFSBlob{.data = std::move(tensor),
                                                          .type = ZenFSBlobType::kOnDiskMMAP,
                                                          .mmap_file = mmap_file,
-                                                         .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                                         .free_lanes_bits_map = freeLanesBitsMap(options_.page_bits + options_.lane_bits)}});
 }
 
 void ZenFileSystem::_findFreeAddrInBlob(vp_blob_addr_t blob_addr, vp_addr_t* ret_addr) {
-- 
2.43.0


From 4109348bb363bf14f634fe4fa9f6504b0f9795ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 052/132] fix: purge hints hit other KV lanes and zeroed live
 anonymous ones

---
 mllm/engine/prefix_cache/ZenFS.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 85d0be6..882cf35 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -145,6 +145,8 @@ void ZenFSBlobMMAPFile::purge(size_t offset, size_t len) {
   ::FlushViewOfFile(start, len);
   ::DiscardVirtualMemory(start, len);
 #else
+  // Anonymous memory has no file to come back from
+  if (fd_ < 0) return;
   ::msync(start, len, MS_SYNC);
   ::madvise(start, len, MADV_DONTNEED);
 #endif
@@ -538,7 +540,7 @@ void ZenFileSystem::hintsPrefetch(vp_addr_t token_lane_addr) const {
     vp_lane_addr_t lane_addr = getLaneAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
 
     // Calculate offset: page offset + lane offset
-    size_t page_offset = page_addr * per_kv_token_mem_size_;
+    size_t page_offset = (static_cast<size_t>(page_addr) << options_.lane_bits) * per_kv_token_mem_size_;
     size_t lane_offset = lane_addr * per_kv_token_mem_size_;
     size_t offset = page_offset + lane_offset;
 
@@ -559,7 +561,7 @@ void ZenFileSystem::hintsPurge(vp_addr_t token_lane_addr) {
     vp_lane_addr_t lane_addr = getLaneAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
 
     // Calculate offset: page offset + lane offset
-    size_t page_offset = page_addr * per_kv_token_mem_size_;
+    size_t page_offset = (static_cast<size_t>(page_addr) << options_.lane_bits) * per_kv_token_mem_size_;
     size_t lane_offset = lane_addr * per_kv_token_mem_size_;
     size_t offset = page_offset + lane_offset;
 
-- 
2.43.0


From 56fc1704eb97a79067789dd8a140976920b063c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 053/132] fix: file-backed KV blobs could never be created

---
 mllm/engine/prefix_cache/ZenFS.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 882cf35..1d5f4b8 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -51,14 +51,11 @@ bool ZenFSBlobMMAPFile::initAnonymous(size_t size, std::error_code& ec) {
 
 bool ZenFSBlobMMAPFile::initFileBacked(size_t size, ZenFSMMAPMode mode, const std::string& fpath, std::error_code& ec) {
   size_ = size;
-  std::vector<char> tmp(fpath.begin(), fpath.end());
-  tmp.push_back('\0');
-  fd_ = ::mkstemp(tmp.data());
+  fd_ = ::open(fpath.c_str(), O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
   if (fd_ < 0) {
     ec = std::error_code(errno, std::system_category());
     return false;
   }
-  ::unlink(tmp.data());  // File is deleted when fd_ is closed
   if (::ftruncate(fd_, static_cast<off_t>(size)) != 0) {
     ec = std::error_code(errno, std::system_category());
     ::close(fd_);
@@ -659,6 +656,10 @@ void ZenFileSystem::_createBlobOnDisk() {
                                              options_.working_dir + "/blob_" + std::to_string(blob_.size()) + ".kv", ec);
 
   if (ec) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "Failed to create mmap file for blob on disk"); }
+#if !defined(_WIN32)
+  // Not recorded: the file is deleted when it is closed
+  if (!options_.record) { ::unlink((options_.working_dir + "/blob_" + std::to_string(blob_.size()) + ".kv").c_str()); }
+#endif
 
   // Create Tensor on MMAP
   auto this_tensor_blob_id = blob_.size();
-- 
2.43.0


From db85355fd8c5cbcb05de87b2434734d6f5a9a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 054/132] fix: reopening a KV store lost anonymous blobs and
 handed out live lanes

---
 mllm/engine/prefix_cache/ZenFS.cpp | 18 +++++++++++-------
 mllm/engine/prefix_cache/ZenFS.hpp |  8 ++++++++
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 1d5f4b8..7d1626a 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -355,6 +355,7 @@ void ZenFileSystem::finalize() {
       blob_info["type"] = static_cast<int>(blob.type);
       blob_info["data_shape"] = blob.data.shape();
       blob_info["data_dtype"] = blob.data.dtype();
+      blob_info["free_lanes_bits_map"] = blob.free_lanes_bits_map;
 
       // Record if blob has mmap file
       if (blob.mmap_file.has_value()) {
@@ -376,13 +377,14 @@ void ZenFileSystem::finalize() {
     }
   }
 
-  // 2. Write first Tensor Blob into disk.
-  // The first blob (blob id 0) should be written to disk
-  auto it = blob_.find(0);
-  if (it != blob_.end() && options_.record) {
-    std::string blob_file_path = options_.working_dir + "/blob_0.kv";
+  // 2. Write Tensor Blobs in memory into disk.
+  // The first blob (blob id 0) and anonymous blobs have no file yet
+  for (auto& [blob_id, blob] : blob_) {
+    if (!options_.record) { break; }
+    if (blob.type == ZenFSBlobType::kOnDiskMMAP && blob.mmap_file.value()->isFileBacked()) { continue; }
+    std::string blob_file_path = options_.working_dir + "/blob_" + std::to_string(blob_id) + ".kv";
     // Write the tensor data to disk
-    auto& tensor = it->second.data;
+    auto& tensor = blob.data;
     auto* data_ptr = tensor.ptr<char>();
     auto data_size = tensor.bytes();
     std::ofstream blob_file(blob_file_path, std::ios::binary);
@@ -424,6 +426,7 @@ void ZenFileSystem::recover(const std::string& working_dir) {
   }
 
   // 4. Recover options from index
+  index_ = index;
   options_.working_dir = working_dir;
   options_.blob_bits_size = index.value("blob_bits_size", 20);
   options_.lane_bits = index.value("lane_bits_size", 5);
@@ -499,7 +502,8 @@ void ZenFileSystem::recover(const std::string& working_dir) {
       }
 
       // Initialize free lanes bitmap
-      blob.free_lanes_bits_map = freeLanesBitsMap(options_.page_bits + options_.lane_bits);
+      blob.free_lanes_bits_map =
+          blob_info.value("free_lanes_bits_map", freeLanesBitsMap(options_.page_bits + options_.lane_bits));
 
       // Insert blob into map
       blob_.insert({blob_id, std::move(blob)});
diff --git a/mllm/engine/prefix_cache/ZenFS.hpp b/mllm/engine/prefix_cache/ZenFS.hpp
index 9a9222e..4071b17 100644
--- a/mllm/engine/prefix_cache/ZenFS.hpp
+++ b/mllm/engine/prefix_cache/ZenFS.hpp
@@ -67,6 +67,14 @@ class ZenFSBlobMMAPFile {
 
   [[nodiscard]] inline size_t size() const { return size_; }
 
+  [[nodiscard]] inline bool isFileBacked() const {
+#if defined(_WIN32)
+    return true;
+#else
+    return fd_ >= 0;
+#endif
+  }
+
   // Hints
   void adviseSequential();
   void adviseRandom();
-- 
2.43.0


From 5f7ba7eee28cd464f748cd7d2e61759674a5110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 055/132] fix: running out of memory was taken for a segment at
 address zero

---
 mllm/backends/cpu/CPUAllocator.cpp | 2 +-
 mllm/engine/BuddyMemPool.cpp       | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/CPUAllocator.cpp b/mllm/backends/cpu/CPUAllocator.cpp
index 24d8b63..7907192 100644
--- a/mllm/backends/cpu/CPUAllocator.cpp
+++ b/mllm/backends/cpu/CPUAllocator.cpp
@@ -56,7 +56,7 @@ void CPUAllocator::free(Storage* storage) { align_free(storage->ptr_); }
 
 bool CPUAllocator::generalAlloc(void** ptr, size_t cap, size_t align) {
   align_alloc(ptr, cap, align);
-  return ptr != nullptr;
+  return *ptr != nullptr;
 }
 
 void CPUAllocator::generalFree(void* ptr) {
diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index e7b5141..4ef8a39 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -23,7 +23,9 @@ BuddyMemPool::BuddyMemPool(BuddyMemPoolOptions options, const Allocator::ptr_t&
     : options_(std::move(options)), allocator_(allocator) {
   // align to 4KB
   void* _p = nullptr;
-  allocator_->generalAlloc(&_p, options_.buddy_first_segment_cap, 4096);
+  if (!allocator_->generalAlloc(&_p, options_.buddy_first_segment_cap, 4096)) {
+    MLLM_ERROR_EXIT(ExitCode::kMemory, "Failed to alloc the first segment for buddy memory pool.");
+  }
 
   auto new_seg = new BuddyMemSegment{
       .ptr = (char*)_p,
-- 
2.43.0


From f57689aacca4ae3257bd0df0abeedccf60d617cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 056/132] fix: a first segment that is no power of two gave out
 blocks smaller than asked for

---
 mllm/engine/BuddyMemPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index 4ef8a39..f6bda10 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -35,7 +35,7 @@ BuddyMemPool::BuddyMemPool(BuddyMemPoolOptions options, const Allocator::ptr_t&
       .max_order = options_.buddy_max_order,
   };
 
-  MLLM_RT_ASSERT_EQ(_log2_ceil(options_.buddy_first_segment_cap), options_.buddy_max_order);
+  MLLM_RT_ASSERT_EQ((size_t)(1ULL << options_.buddy_max_order), options_.buddy_first_segment_cap);
   context_.segments.insert({new_seg->ptr, new_seg});
   context_.segment_blocks.insert(
       {new_seg->ptr, std::vector<std::list<BuddyMemBlock*>>(options_.buddy_max_order - options_.buddy_min_order + 1)});
-- 
2.43.0


From 32fe6aa0b1669b055adc043c2db1eb4c77613c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 057/132] fix: a request above the largest segment took
 segments from the system without end

---
 mllm/engine/BuddyMemPool.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index f6bda10..3f77932 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -9,6 +9,9 @@
 namespace mllm {
 
 namespace MLLM_ANONYMOUS_NAMESPACE {
+// A new segment is at most 512MB
+constexpr size_t kMaxSegmentCap = 1ULL << 29ULL;
+
 size_t _log2_ceil(size_t size) {
   if (size == 0) return 0;
   return static_cast<size_t>(ceil(log2(size)));
@@ -175,6 +178,10 @@ BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
       }
     }
   }
+  // No segment ever gets larger than the largest one so far or kMaxSegmentCap.
+  if (omb_size > std::max((size_t)(1ULL << options_.buddy_max_order), kMaxSegmentCap)) {
+    MLLM_ERROR_EXIT(ExitCode::kMemory, "The storage size {} you want to alloc is too large for buddy memory pool.", omb_size);
+  }
   // lock_guard freed, so that we can call allocBuddy again if not found, alloc a new seg.
   if (expandBuddySegment()) { return allocBuddy(omb_size); }
 
@@ -234,7 +241,7 @@ bool BuddyMemPool::expandBuddySegment() {
   for (auto& seg : cur_segs) { previous_seg_cap = std::max(previous_seg_cap, (size_t)(1ULL << seg.second->max_order)); }
 
   size_t min_order = options_.buddy_min_order;
-  size_t new_cap = std::min(previous_seg_cap * 2, (size_t)(1ULL << 29ULL));  // max is 512MB
+  size_t new_cap = std::max(std::min(previous_seg_cap * 2, kMaxSegmentCap), (size_t)(1ULL << options_.buddy_max_order));
   size_t max_order = _log2_ceil(new_cap);
 
   void* _p = nullptr;
-- 
2.43.0


From ac65bfa106840aa31780bd9c02c3c5546de4d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 058/132] fix: cached small objects were never found again

---
 mllm/engine/BuddyMemPool.cpp | 17 +++++++++--------
 mllm/engine/BuddyMemPool.hpp |  2 +-
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index 3f77932..86f2f83 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -78,7 +78,7 @@ void BuddyMemPool::free(Storage* s) {
   if (s->ptr_ == nullptr) { return; }
 
   if (options_.cache_small_obj_enabled && isInObjCache(try_to_alloc_size)) {
-    freeObjCache(st_[s->custom_32bit_uuid_]);
+    freeObjCache(st_[s->custom_32bit_uuid_], try_to_alloc_size);
   } else {
     freeBuddy(st_[s->custom_32bit_uuid_]);
   }
@@ -90,11 +90,12 @@ void BuddyMemPool::free(const std::shared_ptr<Storage>& s) { free(s.get()); }
 
 void BuddyMemPool::updateCacheSizeList(const std::unordered_set<size_t>& cache_size_set) {
   auto& object_cache = free_object_cache_st_;
-  for (auto size : cache_size_set) {
-    if (!isInObjCache(size)) {
-      auto& free_list = object_cache[size];
-      for (auto it : free_list) { freeBuddy(it); }
-      object_cache.erase(object_cache.find(size));
+  for (auto it = object_cache.begin(); it != object_cache.end();) {
+    if (!cache_size_set.count(it->first)) {
+      for (auto omb : it->second) { freeBuddy(omb); }
+      it = object_cache.erase(it);
+    } else {
+      ++it;
     }
   }
 
@@ -296,10 +297,10 @@ BuddyMemBlock* BuddyMemPool::allocObjCache(size_t omb_size) {
   return ret;
 }
 
-void BuddyMemPool::freeObjCache(BuddyMemBlock* omb) {
+void BuddyMemPool::freeObjCache(BuddyMemBlock* omb, size_t omb_size) {
   std::lock_guard<std::mutex> lock(mutex_);
   auto& object_cache = free_object_cache_st_;
-  object_cache[omb->size].push_back(omb);
+  object_cache[omb_size].push_back(omb);
   obj_cached_times_++;
 }
 
diff --git a/mllm/engine/BuddyMemPool.hpp b/mllm/engine/BuddyMemPool.hpp
index 3b15f98..e36e7e3 100644
--- a/mllm/engine/BuddyMemPool.hpp
+++ b/mllm/engine/BuddyMemPool.hpp
@@ -91,7 +91,7 @@ class BuddyMemPool {
 
   BuddyMemBlock* allocObjCache(size_t omb_size);
 
-  void freeObjCache(BuddyMemBlock* omb);
+  void freeObjCache(BuddyMemBlock* omb, size_t omb_size);
 
   bool isInObjCache(size_t omb_size);
 
-- 
2.43.0


From 62ce8b83ef1c6e1303fb9488f7df939834eea81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 059/132] fix: concurrent allocations raced on the memory
 pool's bookkeeping

---
 mllm/engine/BuddyMemPool.cpp | 15 +++++++++------
 mllm/engine/BuddyMemPool.hpp |  2 +-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index 86f2f83..9f388ee 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -56,6 +56,7 @@ BuddyMemPool::BuddyMemPool(BuddyMemPoolOptions options, const Allocator::ptr_t&
 }
 
 void BuddyMemPool::alloc(Storage* s) {
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto try_to_alloc_size = allocator_->allocSize(s);
 
   // Object cache
@@ -73,6 +74,7 @@ void BuddyMemPool::alloc(Storage* s) {
 void BuddyMemPool::alloc(const std::shared_ptr<Storage>& s) { alloc(s.get()); }
 
 void BuddyMemPool::free(Storage* s) {
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto try_to_alloc_size = allocator_->allocSize(s);
 
   if (s->ptr_ == nullptr) { return; }
@@ -89,6 +91,7 @@ void BuddyMemPool::free(Storage* s) {
 void BuddyMemPool::free(const std::shared_ptr<Storage>& s) { free(s.get()); }
 
 void BuddyMemPool::updateCacheSizeList(const std::unordered_set<size_t>& cache_size_set) {
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto& object_cache = free_object_cache_st_;
   for (auto it = object_cache.begin(); it != object_cache.end();) {
     if (!cache_size_set.count(it->first)) {
@@ -116,7 +119,7 @@ void BuddyMemPool::report() const {
 BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
   // lock_guard should in this scope.
   {
-    std::lock_guard<std::mutex> lock(mutex_);
+    std::lock_guard<std::recursive_mutex> lock(mutex_);
     auto& cur_segs = context_.segments;
     auto& cur_seg_blocks = context_.segment_blocks;
 
@@ -183,7 +186,7 @@ BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
   if (omb_size > std::max((size_t)(1ULL << options_.buddy_max_order), kMaxSegmentCap)) {
     MLLM_ERROR_EXIT(ExitCode::kMemory, "The storage size {} you want to alloc is too large for buddy memory pool.", omb_size);
   }
-  // lock_guard freed, so that we can call allocBuddy again if not found, alloc a new seg.
+  // Not found, alloc a new seg.
   if (expandBuddySegment()) { return allocBuddy(omb_size); }
 
   MLLM_ERROR_EXIT(ExitCode::kMemory, "Failed to alloc a new segment for buddy memory pool.");
@@ -192,7 +195,7 @@ BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
 }
 
 void BuddyMemPool::freeBuddy(BuddyMemBlock* omb) {
-  std::lock_guard<std::mutex> lock(mutex_);
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto cur_seg = omb->segment;
   auto& cur_seg_blocks = context_.segment_blocks[cur_seg->ptr];
 
@@ -284,7 +287,7 @@ BuddyMemSegment* BuddyMemPool::locateSegment(char* ptr) {
 }
 
 BuddyMemBlock* BuddyMemPool::allocObjCache(size_t omb_size) {
-  std::lock_guard<std::mutex> lock(mutex_);
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto& object_cache = free_object_cache_st_;
 
   if (!object_cache.count(omb_size) || object_cache[omb_size].empty()) return nullptr;
@@ -298,14 +301,14 @@ BuddyMemBlock* BuddyMemPool::allocObjCache(size_t omb_size) {
 }
 
 void BuddyMemPool::freeObjCache(BuddyMemBlock* omb, size_t omb_size) {
-  std::lock_guard<std::mutex> lock(mutex_);
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto& object_cache = free_object_cache_st_;
   object_cache[omb_size].push_back(omb);
   obj_cached_times_++;
 }
 
 bool BuddyMemPool::isInObjCache(size_t omb_size) {
-  std::lock_guard<std::mutex> lock(mutex_);
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   return options_.cache_size_set.count(omb_size);
 }
 
diff --git a/mllm/engine/BuddyMemPool.hpp b/mllm/engine/BuddyMemPool.hpp
index e36e7e3..3fd6ac3 100644
--- a/mllm/engine/BuddyMemPool.hpp
+++ b/mllm/engine/BuddyMemPool.hpp
@@ -106,7 +106,7 @@ class BuddyMemPool {
   std::unordered_map<size_t, std::list<BuddyMemBlock*>> free_object_cache_st_;
 
   // Make manager cleanup thread safe.
-  std::mutex mutex_;
+  std::recursive_mutex mutex_;
   std::atomic<bool> cleanup_thread_running_{false};
   std::thread cleanup_thread_;
 };
-- 
2.43.0


From cd9293a50528777db932049c0b6875792b89cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 060/132] fix: parallel loops dropped the last iteration when
 the step does not divide the range

---
 mllm/engine/HpcThreadPool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index 9d552d2..d1d1608 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -6,7 +6,7 @@
 namespace mllm {
 
 void HpcThreadPool::push(HpcThreadPoolTask&& task, int task_slot_idx) {
-  int tiles_num = (task.end - task.start) / task.step;
+  int tiles_num = (task.end - task.start + task.step - 1) / task.step;
 
   // There is no need to fall in back to thread pool
   if (tiles_num <= 1 || task_slot_idx < 0) {
@@ -81,7 +81,7 @@ void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
     for (int i = task.start; i < task.end; i += task.step) { task.func(i); }
     return;
   }
-  int tiles_num = (task.end - task.start) / task.step;
+  int tiles_num = (task.end - task.start + task.step - 1) / task.step;
 
   int _cnt = 0;
   std::vector<int> true_idx(tiles_num);
-- 
2.43.0


From f18bb54eb07c35c65d1c9d9e2541bc92b5e8cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 061/132] fix: a parallel loop on a pool without threads never
 ended

---
 mllm/engine/HpcThreadPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index d1d1608..974bcb8 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -77,7 +77,7 @@ void HpcThreadPool::__threadPoolDestroy() { available_task_slots_ = 0; }
 
 void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
   // There are no task slots, use this main thread to compute!
-  if (available_task_slots_ == 0) {
+  if (available_task_slots_ <= 0 || thread_cnt_ <= 0) {
     for (int i = task.start; i < task.end; i += task.step) { task.func(i); }
     return;
   }
-- 
2.43.0


From b26abbdbfa604adb59d3642ea16679363e2c26e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 062/132] fix: destroying an active thread pool never ended

---
 mllm/engine/HpcThreadPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index 974bcb8..2bf04f6 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -153,7 +153,7 @@ HpcThreadPool::HpcThreadPool(int thread_cnt) {
     int thread_idx = i;
     workers_.emplace_back([this, thread_idx]() {
       while (!stop_) {
-        while (available_task_slots_ > 0) {
+        while (!stop_ && available_task_slots_ > 0) {
           for (int i = 0; i < MLLM_HPC_THREAD_POOL_TASK_LIMITS; ++i) {
             if (*tasks_[i].second[thread_idx]) {
               tasks_[i].first.func(thread_idx);
-- 
2.43.0


From 45f73c56b872706f12ddd07e12992fcf73ac68c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 063/132] fix: a parallel loop never ended when the pool was
 idled or stopped meanwhile

---
 mllm/engine/HpcThreadPool.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index 2bf04f6..4288260 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -30,6 +30,7 @@ void HpcThreadPool::activate() {
 }
 
 void HpcThreadPool::deactivate() {
+  std::lock_guard<std::mutex> _l(queue_mutex_);
   available_task_slots_--;
   available_task_slots_old_--;
 }
@@ -114,8 +115,11 @@ void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
     };
   }
   {
+    std::lock_guard<std::mutex> _l(queue_mutex_);
     for (int i = 1; i < tiles_num; ++i) { *tasks_[task_slot_idx].second[i] = true; }
   }
+  // The workers may have gone to sleep in the meantime
+  condition_.notify_all();
 
   // Explain why we start a 0 idx function.
   //
@@ -152,8 +156,15 @@ HpcThreadPool::HpcThreadPool(int thread_cnt) {
   for (int i = 1; i < thread_cnt_; ++i) {
     int thread_idx = i;
     workers_.emplace_back([this, thread_idx]() {
+      // Work already handed to this thread is done even if the pool has been idled or deactivated since.
+      auto has_work = [this, thread_idx] {
+        for (auto& task : tasks_) {
+          if (*task.second[thread_idx]) { return true; }
+        }
+        return false;
+      };
       while (!stop_) {
-        while (!stop_ && available_task_slots_ > 0) {
+        while (!stop_ && (available_task_slots_ > 0 || has_work())) {
           for (int i = 0; i < MLLM_HPC_THREAD_POOL_TASK_LIMITS; ++i) {
             if (*tasks_[i].second[thread_idx]) {
               tasks_[i].first.func(thread_idx);
@@ -163,7 +174,7 @@ HpcThreadPool::HpcThreadPool(int thread_cnt) {
           std::this_thread::yield();
         }
         std::unique_lock<std::mutex> _l(queue_mutex_);
-        condition_.wait(_l, [this] { return stop_ || available_task_slots_ > 0; });
+        condition_.wait(_l, [&] { return stop_ || available_task_slots_ > 0 || has_work(); });
       }
     });
   }
-- 
2.43.0


From 7b8edbd00f9ce3bae3d9b118e2a6cb7dc9fb94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 064/132] fix: a response could wake up the waiter of another
 request only

---
 mllm/engine/service/Service.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 5400bcd..a08e0f0 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -47,7 +47,8 @@ void ResponsePool::push(const std::string& req_id, ResponseItem item) {
   std::unique_lock lk(mtx_);
   auto& q = queues_[req_id];
   q.push(std::move(item));
-  cv_.notify_one();
+  // Waiters wait for different requests, a single one woken up may be the wrong one.
+  cv_.notify_all();
 }
 
 std::optional<ResponseItem> ResponsePool::pop(const std::string& req_id) {
-- 
2.43.0


From 99dbfe8b961d01070dcebdc068f971954c4d16be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 065/132] fix: registering a session raced with the lookups of
 the workers

---
 mllm/engine/service/Service.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index a08e0f0..e468bee 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -76,11 +76,13 @@ void ResponsePool::shutdown() {
 // SessionPool
 //===----------------------------------------------------------------------===//
 std::shared_ptr<Session> SessionPool::get(const std::string& session_id) {
+  std::lock_guard lk(mtx_);
   if (sessions_.count(session_id)) { return sessions_[session_id]; }
   return nullptr;
 }
 
 void SessionPool::registerSession(const std::string& session_id, const std::shared_ptr<Session>& session) {
+  std::lock_guard lk(mtx_);
   if (sessions_.count(session_id)) {
     // TODO
     return;
-- 
2.43.0


From a799d1e63601a2c6797ec28157e397f5e00dae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 066/132] fix: requests for unknown models and failing sessions
 crashed the service or never ended

---
 mllm/engine/service/Service.cpp | 78 +++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 29 deletions(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index e468bee..fe31f4d 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -4,6 +4,7 @@
 #include <memory>
 #include <chrono>
 #include <optional>
+#include <stdexcept>
 
 #include "mllm/engine/service/Session.hpp"
 #include "mllm/engine/service/Service.hpp"
@@ -90,6 +91,13 @@ void SessionPool::registerSession(const std::string& session_id, const std::shar
   sessions_[session_id] = session;
 }
 
+// Clients take finish_reason as the end of the stream.
+static ResponsePayload errorPayload(const std::string& message) {
+  return {{"error", true},
+          {"message", message},
+          {"choices", nlohmann::json::array({{{"index", 0}, {"delta", {{"content", ""}}}, {"finish_reason", "stop"}}})}};
+}
+
 //===----------------------------------------------------------------------===//
 // Service
 //===----------------------------------------------------------------------===//
@@ -118,36 +126,48 @@ SessionPool& Service::sessionPool() { return sess_pool_; }
 
 void Service::workerLoop() {
   while (running_) {
+    auto req_opt = req_pool_.pop();
+    // pop return empty, which means service is stopped and queue is empty.
+    if (!req_opt) break;
+    RequestItem& req = *req_opt;
+
+    // The last response of the request has been pushed
+    bool done = false;
+    std::string error = "the session ended without finishing the request";
     try {
-      if (auto req_opt = req_pool_.pop(); req_opt) {
-        RequestItem& req = *req_opt;
-        auto session = sess_pool_.get(req.payload.value("model", "<none>"));
-
-        session->streamGenerate(
-            req.payload, [this, req_payload = req.payload, req_id = req.id](const std::string& token, bool finished) {
-              ResponseItem item;
-              item.id = req_id;
-              item.finished = finished;
-              item.raw = token;
-
-              std::time_t now = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
-
-              // Make payload
-              item.payload = {
-                  {"model", req_payload["model"]},
-                  {"created", now},
-                  {"choices", nlohmann::json::array({{{"index", 0},
-                                                      {"delta", {{"content", token}}},
-                                                      {"finish_reason", finished ? "stop" : nlohmann::json(nullptr)}}})}};
-
-              resp_pool_.push(req_id, std::move(item));
-            });
-      } else {
-        // pop return empty, which means service is stopped and queue is empty.
-        break;
-      }
-    } catch (...) {
-      // TODO
+      std::string model = req.payload.value("model", "<none>");
+      auto session = sess_pool_.get(model);
+      if (!session) throw std::runtime_error("unknown model: " + model);
+
+      session->streamGenerate(req.payload, [this, &done, model, req_id = req.id](const std::string& token, bool finished) {
+        ResponseItem item;
+        item.id = req_id;
+        item.finished = finished;
+        item.raw = token;
+
+        std::time_t now = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
+
+        // Make payload
+        item.payload = {{"model", model},
+                        {"created", now},
+                        {"choices", nlohmann::json::array({{{"index", 0},
+                                                            {"delta", {{"content", token}}},
+                                                            {"finish_reason", finished ? "stop" : nlohmann::json(nullptr)}}})}};
+
+        resp_pool_.push(req_id, std::move(item));
+        done = done || finished;
+      });
+    } catch (const std::exception& e) { error = e.what(); } catch (...) {
+      error = "unknown error";
+    }
+
+    // The requester waits for the end of its stream, whatever happened.
+    if (!done) {
+      ResponseItem item;
+      item.id = req.id;
+      item.finished = true;
+      item.payload = errorPayload(error);
+      resp_pool_.push(req.id, std::move(item));
     }
   }
 }
-- 
2.43.0


From 0cd4c2c0514ddd221ed889f5686b4086862e24c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 067/132] fix: stopping the service dropped accepted requests
 and finished responses and left waiters polling

---
 mllm/engine/service/Service.cpp | 22 ++++++++++++++--------
 mllm/engine/service/Service.hpp |  3 ++-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index fe31f4d..442bce5 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -14,12 +14,14 @@ namespace mllm::service {
 //===----------------------------------------------------------------------===//
 // RequestPool
 //===----------------------------------------------------------------------===//
-void RequestPool::push(RequestItem item) {
+bool RequestPool::push(RequestItem item) {
   {
     std::lock_guard lk(mtx_);
+    if (stop_) return false;
     queue_.push(std::move(item));
   }
   cv_.notify_one();
+  return true;
 }
 
 std::optional<RequestItem> RequestPool::pop() {
@@ -58,9 +60,11 @@ std::optional<ResponseItem> ResponsePool::pop(const std::string& req_id) {
     auto it = queues_.find(req_id);
     return (it != queues_.end() && !it->second.empty()) || stop_;
   });
-  if (stop_) return std::nullopt;
+  // Responses that are there are delivered even after a stop.
+  auto it = queues_.find(req_id);
+  if (it == queues_.end() || it->second.empty()) return std::nullopt;
 
-  auto& q = queues_[req_id];
+  auto& q = it->second;
   auto v = std::move(q.front());
   q.pop();
   if (q.empty()) queues_.erase(req_id);
@@ -125,7 +129,8 @@ ResponsePool& Service::responsePool() { return resp_pool_; }
 SessionPool& Service::sessionPool() { return sess_pool_; }
 
 void Service::workerLoop() {
-  while (running_) {
+  // Requests accepted before a stop are still served.
+  while (true) {
     auto req_opt = req_pool_.pop();
     // pop return empty, which means service is stopped and queue is empty.
     if (!req_opt) break;
@@ -188,8 +193,7 @@ int sendRequest(const std::string& json_str) {
     item.id = j.value("id", "");
     item.payload = j;
     item.enqueue_time = std::chrono::steady_clock::now();
-    Service::instance().requestPool().push(std::move(item));
-    return 0;
+    return Service::instance().requestPool().push(std::move(item)) ? 0 : -1;
   } catch (...) {
     // TODO
     return -1;
@@ -207,8 +211,10 @@ Response getResponse(const std::string& id) {
     auto& pool = Service::instance().responsePool();
     auto opt = pool.pop(id);
     if (!opt) {
-      nlohmann::json j;
-      j["finished"] = false;
+      // The service is stopped and there will be no more responses.
+      nlohmann::json j = errorPayload("the service is stopped");
+      j["id"] = id;
+      j["finished"] = true;
       return j.dump();
     }
     nlohmann::json j = opt->payload;
diff --git a/mllm/engine/service/Service.hpp b/mllm/engine/service/Service.hpp
index 2ae6e8a..7d30f6e 100644
--- a/mllm/engine/service/Service.hpp
+++ b/mllm/engine/service/Service.hpp
@@ -36,7 +36,8 @@ struct ResponseItem {
 
 class RequestPool {
  public:
-  void push(RequestItem item);
+  // false if the service is stopped
+  bool push(RequestItem item);
 
   std::optional<RequestItem> pop();
 
-- 
2.43.0


From 376c806cd5a7609b6d6b2fda83f7f4935a8ebe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 068/132] fix: a service started again after a stop accepted
 requests and never served them

---
 mllm/engine/service/Service.cpp | 13 +++++++++++++
 mllm/engine/service/Service.hpp |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 442bce5..faa3662 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -43,6 +43,11 @@ void RequestPool::shutdown() {
   cv_.notify_all();
 }
 
+void RequestPool::restart() {
+  std::lock_guard lk(mtx_);
+  stop_ = false;
+}
+
 //===----------------------------------------------------------------------===//
 // ResponsePool
 //===----------------------------------------------------------------------===//
@@ -77,6 +82,11 @@ void ResponsePool::shutdown() {
   cv_.notify_all();
 }
 
+void ResponsePool::restart() {
+  std::lock_guard lk(mtx_);
+  stop_ = false;
+}
+
 //===----------------------------------------------------------------------===//
 // SessionPool
 //===----------------------------------------------------------------------===//
@@ -106,6 +116,8 @@ static ResponsePayload errorPayload(const std::string& message) {
 // Service
 //===----------------------------------------------------------------------===//
 void Service::start(size_t worker_threads) {
+  req_pool_.restart();
+  resp_pool_.restart();
   running_ = true;
   sess_pool_.registerSession("<none>", std::make_shared<NoneSession>());
   for (size_t i = 0; i < worker_threads; ++i) workers_.emplace_back([this] { workerLoop(); });
@@ -118,6 +130,7 @@ void Service::stop() {
   for (auto& t : workers_) {
     if (t.joinable()) { t.join(); }
   }
+  workers_.clear();
 
   resp_pool_.shutdown();
 }
diff --git a/mllm/engine/service/Service.hpp b/mllm/engine/service/Service.hpp
index 7d30f6e..06125bb 100644
--- a/mllm/engine/service/Service.hpp
+++ b/mllm/engine/service/Service.hpp
@@ -43,6 +43,8 @@ class RequestPool {
 
   void shutdown();
 
+  void restart();
+
  private:
   std::queue<RequestItem> queue_;
   std::mutex mtx_;
@@ -69,6 +71,8 @@ class ResponsePool {
 
   void shutdown();
 
+  void restart();
+
  private:
   std::mutex mtx_;
   std::condition_variable cv_;
-- 
2.43.0


From 613a67394d4dde1dbd9cecb65a0c7e5b40f422d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 069/132] fix: a token that ends within a character ended its
 stream with an error

---
 mllm/engine/service/Service.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index faa3662..5306567 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -234,7 +234,8 @@ Response getResponse(const std::string& id) {
     j["id"] = opt->id;
     j["object"] = "chat.completion.chunk";
     j["finished"] = opt->finished;
-    std::string s = j.dump();
+    // A token may end within a character.
+    std::string s = j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
     return s;
   } catch (...) {
     // TODO
-- 
2.43.0


From 7a0f831ab194c1469cbc7e4896a56c167ae9821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 070/132] fix: requests without an id were accepted although
 their responses cannot be fetched

---
 mllm/engine/service/Service.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 5306567..a00a42b 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -204,6 +204,8 @@ int sendRequest(const std::string& json_str) {
     auto j = nlohmann::json::parse(json_str);
     RequestItem item;
     item.id = j.value("id", "");
+    // Nobody could ever fetch its responses.
+    if (item.id.empty()) return -1;
     item.payload = j;
     item.enqueue_time = std::chrono::steady_clock::now();
     return Service::instance().requestPool().push(std::move(item)) ? 0 : -1;
-- 
2.43.0


From 61081b96c620d8730dd3404418eaf7032d83e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 071/132] fix: a converting move of a shared handle destroyed
 the object it took over

---
 mllm/utils/IntrusivePtr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/utils/IntrusivePtr.hpp b/mllm/utils/IntrusivePtr.hpp
index fff1820..692e3a8 100644
--- a/mllm/utils/IntrusivePtr.hpp
+++ b/mllm/utils/IntrusivePtr.hpp
@@ -56,7 +56,8 @@ class IntrusivePtr {
 
   template<typename U>
   IntrusivePtr(IntrusivePtr<U>&& other) noexcept : ptr(other.get()) {  // NOLINT
-    other.reset();
+    // The reference moves along, it must not be released.
+    other.ptr = nullptr;
   }
 
   ~IntrusivePtr() {
-- 
2.43.0


From 4d7ac38f685e7001b09a61f3b3773d8b449fb6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 072/132] fix: deleting a tensor dereferenced the view it had
 just released

---
 mllm/core/Tensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mllm/core/Tensor.cpp b/mllm/core/Tensor.cpp
index 37aea2d..8a26adb 100644
--- a/mllm/core/Tensor.cpp
+++ b/mllm/core/Tensor.cpp
@@ -31,13 +31,13 @@
 namespace mllm {
 
 void Tensor::operator delete(void* ptr) noexcept {
-  ((Tensor*)ptr)->impl_.reset();
-  for (auto& [a, _] : ((Tensor*)ptr)->impl_->attachedViews()) { ((Tensor*)ptr)->impl_->attachedViews()[a].second.reset(); }
+  // The destructor has already released the storage and the attached views.
+  ::operator delete(ptr);
 }
 
 void Tensor::delete_() noexcept {
+  // Attached views belong to the impl and go with its last owner.
   this->impl_.reset();
-  for (auto& [a, _] : this->impl_->attachedViews()) { this->impl_->attachedViews()[a].second.reset(); }
 }
 
 /**
-- 
2.43.0


From d7ffa40cda4aca02531af97cfdc15d8082e5b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 073/132] fix: symbolic expressions with chained operators were
 misread and malformed ones hung or crashed

---
 mllm/compile/symbolic_expr/Parser.cpp | 103 +++++++++++---------------
 mllm/compile/symbolic_expr/Parser.hpp |  10 +--
 2 files changed, 47 insertions(+), 66 deletions(-)

diff --git a/mllm/compile/symbolic_expr/Parser.cpp b/mllm/compile/symbolic_expr/Parser.cpp
index a6f3eda..0599d4f 100644
--- a/mllm/compile/symbolic_expr/Parser.cpp
+++ b/mllm/compile/symbolic_expr/Parser.cpp
@@ -4,6 +4,7 @@
 #include <cctype>
 #include <cstdlib>
 #include <memory>
+#include <stdexcept>
 
 #include "mllm/compile/symbolic_expr/Parser.hpp"
 #include "mllm/compile/symbolic_expr/AST.hpp"
@@ -156,10 +157,10 @@ void SymbolExprLexer::handleNumberState() {
   auto isOk = [&]() -> bool {
     if (has_one_dot && cur_char_ == '.') {
       // find multiple dot.
-      // FIXME: log an error
-      exit(-1);
+      throw std::invalid_argument("malformed number in symbolic expression: " + char_buffer_ + ".");
     }
     if (!has_one_dot && cur_char_ == '.') {
+      has_one_dot = true;
       is_float = true;
       is_int = false;
       return true;
@@ -173,6 +174,8 @@ void SymbolExprLexer::handleNumberState() {
     getNextChar();
   }
 
+  if (char_buffer_ == ".") throw std::invalid_argument("malformed number in symbolic expression: .");
+
   if (is_int) handleInt();
   if (is_float) handleFP();
 
@@ -241,69 +244,54 @@ void SymbolExprLexer::addToCharBuffer(char c) { char_buffer_.push_back(c); }
 void SymbolExprLexer::clearCharBuffer() { char_buffer_.clear(); }
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parse() {
-  auto token = getNextToken();
-  expr_ast_ptr_t ret = nullptr;
-  while (token.type_ != SymbolExprTokenType::Eof) {
-    ret = parseExpr(ret);
-    token = getNextToken();
-  }
+  (void)getNextToken();
+  auto ret = parseExpr(0);
+  if (getToken().type_ != SymbolExprTokenType::Eof) error();
   return ret;
 }
 
-SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseExpr(expr_ast_ptr_t& prev_expr) {
-  expr_ast_ptr_t ret = nullptr;
-  auto token = getToken();
-  switch (token.type_) {
+// Precedence climbing, all operators are left associative. Every parse function starts at the current token and leaves the
+// first token behind what it has parsed as the current one.
+SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseExpr(int32_t min_precedence) {
+  auto lhs = parseOperand();
+  while (getToken().type_ == SymbolExprTokenType::Operators && lexer_->getPrecedence(getToken()) >= min_precedence) {
+    auto binary_op = getToken();
+    (void)getNextToken();
+    auto rhs = parseExpr(lexer_->getPrecedence(binary_op) + 1);
+    lhs = std::make_shared<BinaryExprAST>(binary_op.token_v_, lhs, rhs);
+  }
+  return lhs;
+}
+
+SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseOperand() {
+  switch (getToken().type_) {
     case SymbolExprTokenType::Int:
-    case SymbolExprTokenType::FP: ret = parseNumberLiteralExpr(); break;
+    case SymbolExprTokenType::FP: return parseNumberLiteralExpr();
     case SymbolExprTokenType::Keywords:
       // FIXME: currently, all keywords is unary operator. fix it to support multi
       // inputs with args and rets.
-      ret = parseUnaryExpr();
-      break;
-    case SymbolExprTokenType::Delimiter: ret = parseGroupedExpr(); break;
-    case SymbolExprTokenType::Operators:
-      // FIXME: currently, all operators is binary operator
-      ret = parseBinaryExpr(prev_expr);
-      break;
-    case SymbolExprTokenType::Identifier: ret = parseVarExpr(); break;
-    default: break;
+      return parseUnaryExpr();
+    case SymbolExprTokenType::Delimiter: return parseGroupedExpr();
+    case SymbolExprTokenType::Identifier: return parseVarExpr();
+    default: error();
   }
-  return ret;
 }
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseGroupedExpr() {
-  auto token = getNextToken();
-  expr_ast_ptr_t ret = nullptr;
-  while (token.token_v_ != SymbolExprTokenValue::ParenthesesClose) {
-    ret = parseExpr(ret);
-    token = getNextToken();
-  }
-
-  // ')' has already consumed by while loop.
-
+  if (getToken().token_v_ != SymbolExprTokenValue::ParenthesesOpen) error();
+  (void)getNextToken();
+  auto ret = parseExpr(0);
+  if (getToken().token_v_ != SymbolExprTokenValue::ParenthesesClose) error();
+  (void)getNextToken();
   return ret;
 }
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseVarExpr() {
   auto token = getToken();
-  return std::make_shared<VarAST>(token.str_v_);
-}
-
-SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseBinaryExpr(expr_ast_ptr_t& prev_expr) {
-  auto binary_op = getToken();
-
+  // characters that start no token at all
+  if (token.str_v_.empty()) error();
   (void)getNextToken();
-  auto rhs_expr = parseExpr(prev_expr);
-
-  // look ahead, LL(1)
-  auto next_op = lookOneMoreToken();
-  if (next_op.type_ == SymbolExprTokenType::Operators && lexer_->getPrecedence(next_op) > lexer_->getPrecedence(binary_op)) {
-    (void)getNextToken();
-    rhs_expr = parseBinaryExpr(rhs_expr);
-  }
-
-  return std::make_shared<BinaryExprAST>(binary_op.token_v_, prev_expr, rhs_expr);
+  return std::make_shared<VarAST>(token.str_v_);
 }
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseUnaryExpr() {
@@ -316,8 +304,15 @@ SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseUnaryExpr() {
   return std::make_shared<UnaryExprAST>(unary_op.token_v_, group);
 }
 
+void SymbolExprParser::error() {
+  auto token = getToken();
+  throw std::invalid_argument("malformed symbolic expression at "
+                              + (token.type_ == SymbolExprTokenType::Eof ? std::string("its end") : "'" + token.name_ + "'"));
+}
+
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseNumberLiteralExpr() {
   auto token = getToken();
+  (void)getNextToken();
   if (token.type_ == SymbolExprTokenType::Int) {
     return std::make_shared<IntLiteralAST>(token.int_v_);
   } else if (token.type_ == SymbolExprTokenType::FP) {
@@ -326,21 +321,9 @@ SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseNumberLiteralExpr() {
   return nullptr;
 }
 
-SymbolExprToken SymbolExprParser::lookOneMoreToken() {
-  auto ret = lexer_->getNextToken();
-  token_buffer_.push(ret);
-  return ret;
-}
-
 SymbolExprToken SymbolExprParser::getToken() { return cur_token_; }
 
 SymbolExprToken SymbolExprParser::getNextToken() {
-  if (!token_buffer_.empty()) {
-    auto ret = token_buffer_.front();
-    token_buffer_.pop();
-    cur_token_ = ret;
-    return ret;
-  }
   auto ret = lexer_->getNextToken();
   cur_token_ = ret;
   return ret;
diff --git a/mllm/compile/symbolic_expr/Parser.hpp b/mllm/compile/symbolic_expr/Parser.hpp
index 7477762..677ea5d 100644
--- a/mllm/compile/symbolic_expr/Parser.hpp
+++ b/mllm/compile/symbolic_expr/Parser.hpp
@@ -119,27 +119,25 @@ class SymbolExprParser {
   expr_ast_ptr_t parse();
 
  private:
-  expr_ast_ptr_t parseExpr(expr_ast_ptr_t& prev_expr);
+  expr_ast_ptr_t parseExpr(int32_t min_precedence);
+
+  expr_ast_ptr_t parseOperand();
 
   expr_ast_ptr_t parseGroupedExpr();
 
   expr_ast_ptr_t parseVarExpr();
 
-  expr_ast_ptr_t parseBinaryExpr(expr_ast_ptr_t& prev_expr);
-
   expr_ast_ptr_t parseUnaryExpr();
 
   expr_ast_ptr_t parseNumberLiteralExpr();
 
-  SymbolExprToken lookOneMoreToken();
+  [[noreturn]] void error();
 
   SymbolExprToken getToken();
 
   SymbolExprToken getNextToken();
 
  private:
-  // token buffer for look ahead, just look 1 more token is enough. Like LL(1)
-  std::queue<SymbolExprToken> token_buffer_;
   SymbolExprToken cur_token_;
   SymbolExprLexer* lexer_ = nullptr;
 };
-- 
2.43.0


From c0d339ce9a270160144df5389bf835cebdf8c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 074/132] fix: % bound as loosely as + in symbolic expressions

---
 mllm/compile/symbolic_expr/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/compile/symbolic_expr/Parser.cpp b/mllm/compile/symbolic_expr/Parser.cpp
index 0599d4f..9b201ae 100644
--- a/mllm/compile/symbolic_expr/Parser.cpp
+++ b/mllm/compile/symbolic_expr/Parser.cpp
@@ -15,7 +15,7 @@ SymbolExprTokenDic::SymbolExprTokenDic() {
   // add operators
   ADD_TOKEN("+", Operators, Plus, 10);
   ADD_TOKEN("-", Operators, Minus, 10);
-  ADD_TOKEN("%", Operators, Mod, 10);
+  ADD_TOKEN("%", Operators, Mod, 20);
   ADD_TOKEN("*", Operators, Multiply, 20);
   ADD_TOKEN("/", Operators, Divide, 20);
 
-- 
2.43.0


From c3425f1e33a848e7b3faa8f2308783d7928e1486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 075/132] fix: symbolic expressions with unbound variables or
 modulo zero crashed

---
 mllm/compile/symbolic_expr/AST.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mllm/compile/symbolic_expr/AST.hpp b/mllm/compile/symbolic_expr/AST.hpp
index 300c5ee..0c5758e 100644
--- a/mllm/compile/symbolic_expr/AST.hpp
+++ b/mllm/compile/symbolic_expr/AST.hpp
@@ -8,6 +8,7 @@
 #include <cstdlib>
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <unordered_map>
@@ -105,6 +106,7 @@ class BinaryExprAST final : public SymbolExprAST {
       case SymbolExprTokenValue::Multiply: value_ = lhs_v * rhs_v; break;
       case SymbolExprTokenValue::Divide: value_ = lhs_v / rhs_v; break;
       case SymbolExprTokenValue::Mod:
+        if (static_cast<int32_t>(rhs_v) == 0) { throw std::domain_error("symbolic expression: modulo by zero"); }
         value_ = static_cast<float>(static_cast<int32_t>(lhs_v) % static_cast<int32_t>(rhs_v));
         break;
       default: break;
@@ -210,7 +212,11 @@ class VarAST final : public SymbolExprAST {
     fmt::print("var = {}\n", var_name_);
   }
 
-  float eval(const std::unordered_map<std::string, float>& var_values) override { return var_values.find(var_name_)->second; }
+  float eval(const std::unordered_map<std::string, float>& var_values) override {
+    auto it = var_values.find(var_name_);
+    if (it == var_values.end()) { throw std::invalid_argument("symbolic expression: no value for variable " + var_name_); }
+    return it->second;
+  }
 
   void str(std::stringstream& ss) override { ss << var_name_; }
 
-- 
2.43.0


From 3cfc6dbdad88eb04ad57bab5373f61183dd6b753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 076/132] fix: special tokens that overlap were split at the
 wrong places

---
 .../preprocessor/tokenizers/AutoTokenizer.cpp | 194 ++++--------------
 .../preprocessor/tokenizers/AutoTokenizer.hpp |   2 -
 2 files changed, 41 insertions(+), 155 deletions(-)

diff --git a/mllm/preprocessor/tokenizers/AutoTokenizer.cpp b/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
index ae9f4f9..9ee098c 100644
--- a/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
+++ b/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
@@ -31,80 +31,28 @@ void Trie::update(const std::vector<std::wstring>& words) {
 }
 
 std::vector<std::wstring> Trie::split(const std::wstring& text) {
-  std::map<size_t, TrieNode*> states;
-  std::vector<size_t> offsets = {0};
-  size_t skip = 0;
-
-  for (size_t current = 0; current < text.size(); ++current) {
-    if (skip > current) continue;
-
-    std::unordered_set<size_t> to_remove;
-    bool reset = false;
-
-    wchar_t current_char = text[current];
-
-    for (auto& [_start, node] : states) {
-      auto start = _start;
-      if (node->is_end) {
-        // trying to find the longest match
-        size_t max_end = current;
-
-        for (auto& [look_start, look_node] : states) {
-          if (look_start > start) break;
-
-          size_t lookahead = (look_start < start) ? current + 1 : current;
-          size_t end = lookahead;
-          TrieNode* ptr = look_node;
-
-          while (lookahead < text.size()) {
-            wchar_t ch = text[lookahead];
-
-            if (!ptr->children.count(ch)) break;
-
-            ptr = ptr->children[ch].get();
-            lookahead++;
-
-            if (ptr->is_end) {
-              start = look_start;
-              end = lookahead;
-              skip = lookahead;
-            }
-          }
-
-          if (ptr->is_end && end > max_end) { max_end = end; }
-        }
-        offsets.push_back(start);
-        offsets.push_back(max_end);
-        reset = true;
-        break;
-      }
-      if (node->children.count(current_char)) {
-        states[start] = node->children[current_char].get();
-      } else {
-        to_remove.insert(start);
-      }
-    }
-    if (reset) {
-      states.clear();
-    } else {
-      for (auto start : to_remove) { states.erase(start); }
+  // The leftmost special token is cut out first, and among those that begin there the longest one.
+  std::vector<std::wstring> result;
+  size_t plain_start = 0;
+  size_t current = 0;
+  while (current < text.size()) {
+    size_t match_end = current;
+    const TrieNode* node = root_.get();
+    for (size_t lookahead = current; lookahead < text.size(); ++lookahead) {
+      auto child = node->children.find(text[lookahead]);
+      if (child == node->children.end()) break;
+      node = child->second.get();
+      if (node->is_end) match_end = lookahead + 1;
     }
-    if (current >= skip && root_->children.count(current_char)) { states[current] = root_->children[current_char].get(); }
-  }
-  for (auto& [start, node] : states) {
-    if (node->is_end) {
-      offsets.push_back(start);
-      offsets.push_back(text.size());
-      break;
+    if (match_end == current) {
+      ++current;
+      continue;
     }
+    if (plain_start < current) { result.push_back(text.substr(plain_start, current - plain_start)); }
+    result.push_back(text.substr(current, match_end - current));
+    plain_start = current = match_end;
   }
-
-  sort(offsets.begin(), offsets.end());
-  std::vector<std::wstring> result;
-  for (size_t i = 1; i < offsets.size(); ++i) {
-    if (offsets[i - 1] != offsets[i]) { result.push_back(text.substr(offsets[i - 1], offsets[i] - offsets[i - 1])); }
-  }
-  if (offsets[offsets.size() - 1] != text.size()) { result.push_back(text.substr(offsets[offsets.size() - 1])); }
+  if (plain_start < text.size()) { result.push_back(text.substr(plain_start, text.size() - plain_start)); }
   return result;
 }
 
@@ -129,94 +77,34 @@ void TrieUTF8::update(const std::vector<std::string>& words) {
   for (const auto& word : words) { add(word); }
 }
 
-// I use FSA to implement the split function.
 std::vector<std::string> TrieUTF8::split(const std::string& text_utf8) {
   auto text = utf8String2Cpts(text_utf8);
 
-  std::map<size_t, TrieNode*> states;
-  std::vector<size_t> offsets = {0};
-  size_t skip = 0;
-
-  for (size_t current = 0; current < text.size(); ++current) {
-    if (skip > current) continue;
-
-    std::unordered_set<size_t> to_remove;
-    bool reset = false;
-
-    wchar_t current_char = text[current];
-
-    for (auto& [_start, node] : states) {
-      auto start = _start;
-      if (node->is_end) {
-        // trying to find the longest match
-        size_t max_end = current;
-
-        for (auto& [look_start, look_node] : states) {
-          if (look_start > start) break;
-
-          size_t lookahead = (look_start < start) ? current + 1 : current;
-          size_t end = lookahead;
-          TrieNode* ptr = look_node;
-
-          while (lookahead < text.size()) {
-            wchar_t ch = text[lookahead];
-
-            if (!ptr->children.count(ch)) break;
-
-            ptr = ptr->children[ch].get();
-            lookahead++;
-
-            if (ptr->is_end) {
-              start = look_start;
-              end = lookahead;
-              skip = lookahead;
-            }
-          }
-
-          if (ptr->is_end && end > max_end) { max_end = end; }
-        }
-        offsets.push_back(start);
-        offsets.push_back(max_end);
-        reset = true;
-        break;
-      }
-      if (node->children.count(current_char)) {
-        states[start] = node->children[current_char].get();
-      } else {
-        to_remove.insert(start);
-      }
-    }
-    if (reset) {
-      states.clear();
-    } else {
-      for (auto start : to_remove) { states.erase(start); }
-    }
-    if (current >= skip && root_->children.count(current_char)) { states[current] = root_->children[current_char].get(); }
-  }
-  for (auto& [start, node] : states) {
-    if (node->is_end) {
-      offsets.push_back(start);
-      offsets.push_back(text.size());
-      break;
-    }
-  }
-
-  sort(offsets.begin(), offsets.end());
+  // The leftmost special token is cut out first, and among those that begin there the longest one.
   std::vector<std::string> result;
-
-  for (size_t i = 1; i < offsets.size(); ++i) {
-    if (offsets[i - 1] != offsets[i]) {
-      auto cpts_str = cpts_string_t{};
-      for (int __idx = offsets[i - 1]; __idx < offsets[i]; __idx++) { cpts_str.push_back(text[__idx]); }
-      result.push_back(cpts2Utf8String(cpts_str));
+  auto piece = [&](size_t begin, size_t end) {
+    return cpts2Utf8String(cpts_string_t(text.begin() + (int64_t)begin, text.begin() + (int64_t)end));
+  };
+  size_t plain_start = 0;
+  size_t current = 0;
+  while (current < text.size()) {
+    size_t match_end = current;
+    const TrieNode* node = root_.get();
+    for (size_t lookahead = current; lookahead < text.size(); ++lookahead) {
+      auto child = node->children.find(text[lookahead]);
+      if (child == node->children.end()) break;
+      node = child->second.get();
+      if (node->is_end) match_end = lookahead + 1;
     }
+    if (match_end == current) {
+      ++current;
+      continue;
+    }
+    if (plain_start < current) { result.push_back(piece(plain_start, current)); }
+    result.push_back(piece(current, match_end));
+    plain_start = current = match_end;
   }
-  if (offsets[offsets.size() - 1] != text.size()) {
-    auto cpts_str = cpts_string_t{};
-    for (int __idx = offsets[offsets.size() - 1]; __idx < text.size(); __idx++) { cpts_str.push_back(text[__idx]); }
-    result.push_back(cpts2Utf8String(cpts_str));
-  }
-
+  if (plain_start < text.size()) { result.push_back(piece(plain_start, text.size())); }
   return result;
 }
 
diff --git a/mllm/preprocessor/tokenizers/AutoTokenizer.hpp b/mllm/preprocessor/tokenizers/AutoTokenizer.hpp
index 10721e2..5c09665 100644
--- a/mllm/preprocessor/tokenizers/AutoTokenizer.hpp
+++ b/mllm/preprocessor/tokenizers/AutoTokenizer.hpp
@@ -46,7 +46,6 @@ class Trie {
 
   void update(const std::vector<std::wstring>& words);
 
-  // I use FSA to implement the split function.
   std::vector<std::wstring> split(const std::wstring& text);
 
   bool isSpecialToken(const std::wstring& token);
@@ -76,7 +75,6 @@ class TrieUTF8 {
 
   void update(const std::vector<std::string>& words);
 
-  // I use FSA to implement the split function.
   std::vector<std::string> split(const std::string& text);
 
   bool isSpecialToken(const std::string& token);
-- 
2.43.0


From 09ae7408ceac304ab36a00d3848a5c975d2baa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:47 +0000
Subject: [PATCH 077/132] fix: runs of white space were split into the wrong
 tokens by the Qwen tokenizers

---
 .../minicpm_o2_6/tokenization_minicpmo.hpp       | 16 +++++++++-------
 mllm/models/qwen2vl/tokenization_qwen2vl.hpp     | 16 +++++++++-------
 mllm/models/qwen3/tokenization_qwen3.hpp         | 16 +++++++++-------
 mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp | 16 +++++++++-------
 mllm/models/qwen_npu/tokenization_qwen.hpp       | 16 +++++++++-------
 5 files changed, 45 insertions(+), 35 deletions(-)

diff --git a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
index 569e0e1..4ff5304 100644
--- a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
+++ b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
@@ -103,14 +103,14 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && std::iswspace(str[end])) ++end;
+    // \s* gives back what comes after the last newline
+    while (end > pos && str[end - 1] != L'\r' && str[end - 1] != L'\n') --end;
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
@@ -118,6 +118,8 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   if (std::iswspace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    // \s+ gives back its last character if something else follows
+    if (pos < str.size() && pos - start > 1) --pos;
     // Check if at end or followed by whitespace
     if (pos >= str.size() || std::iswspace(str[pos])) {
       matched = str.substr(start, pos - start);
diff --git a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
index 1ff6d03..cb683f2 100644
--- a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
+++ b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
@@ -99,14 +99,14 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && std::iswspace(str[end])) ++end;
+    // \s* gives back what comes after the last newline
+    while (end > pos && str[end - 1] != L'\r' && str[end - 1] != L'\n') --end;
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
@@ -114,6 +114,8 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   if (std::iswspace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    // \s+ gives back its last character if something else follows
+    if (pos < str.size() && pos - start > 1) --pos;
     // Check if at end or followed by whitespace
     if (pos >= str.size() || std::iswspace(str[pos])) {
       matched = str.substr(start, pos - start);
diff --git a/mllm/models/qwen3/tokenization_qwen3.hpp b/mllm/models/qwen3/tokenization_qwen3.hpp
index 73cb08a..60aa36f 100644
--- a/mllm/models/qwen3/tokenization_qwen3.hpp
+++ b/mllm/models/qwen3/tokenization_qwen3.hpp
@@ -98,14 +98,14 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && std::iswspace(str[end])) ++end;
+    // \s* gives back what comes after the last newline
+    while (end > pos && str[end - 1] != L'\r' && str[end - 1] != L'\n') --end;
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
@@ -113,6 +113,8 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   if (std::iswspace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    // \s+ gives back its last character if something else follows
+    if (pos < str.size() && pos - start > 1) --pos;
     // Check if at end or followed by whitespace
     if (pos >= str.size() || std::iswspace(str[pos])) {
       matched = str.substr(start, pos - start);
diff --git a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
index 181d576..2804567 100644
--- a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
+++ b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
@@ -98,14 +98,14 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && std::iswspace(str[end])) ++end;
+    // \s* gives back what comes after the last newline
+    while (end > pos && str[end - 1] != L'\r' && str[end - 1] != L'\n') --end;
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
@@ -113,6 +113,8 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   if (std::iswspace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    // \s+ gives back its last character if something else follows
+    if (pos < str.size() && pos - start > 1) --pos;
     // Check if at end or followed by whitespace
     if (pos >= str.size() || std::iswspace(str[pos])) {
       matched = str.substr(start, pos - start);
diff --git a/mllm/models/qwen_npu/tokenization_qwen.hpp b/mllm/models/qwen_npu/tokenization_qwen.hpp
index a5cdc26..9f5e080 100644
--- a/mllm/models/qwen_npu/tokenization_qwen.hpp
+++ b/mllm/models/qwen_npu/tokenization_qwen.hpp
@@ -92,14 +92,14 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && std::iswspace(str[end])) ++end;
+    // \s* gives back what comes after the last newline
+    while (end > pos && str[end - 1] != L'\r' && str[end - 1] != L'\n') --end;
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
@@ -107,6 +107,8 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   if (std::iswspace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    // \s+ gives back its last character if something else follows
+    if (pos < str.size() && pos - start > 1) --pos;
     // Check if at end or followed by whitespace
     if (pos >= str.size() || std::iswspace(str[pos])) {
       matched = str.substr(start, pos - start);
-- 
2.43.0


From 3363eb1135f3b697f1593a7b68b5cb4a12fefb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 078/132] fix: upper-case contractions were split into the
 wrong tokens by the Qwen tokenizers

---
 mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp | 7 +++++--
 mllm/models/qwen2vl/tokenization_qwen2vl.hpp       | 7 +++++--
 mllm/models/qwen3/tokenization_qwen3.hpp           | 7 +++++--
 mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp   | 7 +++++--
 mllm/models/qwen_npu/tokenization_qwen.hpp         | 7 +++++--
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
index 4ff5304..e3e1c82 100644
--- a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
+++ b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <vector>
+#include <algorithm>
 #include <unordered_map>
 #include <regex>
 
@@ -27,8 +28,10 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + (int64_t)pos,
+                      [](wchar_t expected, wchar_t c) { return expected == static_cast<wchar_t>(std::towlower(c)); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
diff --git a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
index cb683f2..e87017f 100644
--- a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
+++ b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <vector>
+#include <algorithm>
 #include <unordered_map>
 
 #include "mllm/preprocessor/tokenizers/BPE.hpp"
@@ -23,8 +24,10 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + (int64_t)pos,
+                      [](wchar_t expected, wchar_t c) { return expected == static_cast<wchar_t>(std::towlower(c)); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
diff --git a/mllm/models/qwen3/tokenization_qwen3.hpp b/mllm/models/qwen3/tokenization_qwen3.hpp
index 60aa36f..ff4bff3 100644
--- a/mllm/models/qwen3/tokenization_qwen3.hpp
+++ b/mllm/models/qwen3/tokenization_qwen3.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <vector>
+#include <algorithm>
 #include <unordered_map>
 
 #include "mllm/preprocessor/tokenizers/BPE.hpp"
@@ -22,8 +23,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + (int64_t)pos,
+                      [](wchar_t expected, wchar_t c) { return expected == static_cast<wchar_t>(std::towlower(c)); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
diff --git a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
index 2804567..e54baeb 100644
--- a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
+++ b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <vector>
+#include <algorithm>
 #include <unordered_map>
 
 #include "mllm/preprocessor/tokenizers/BPE.hpp"
@@ -22,8 +23,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + (int64_t)pos,
+                      [](wchar_t expected, wchar_t c) { return expected == static_cast<wchar_t>(std::towlower(c)); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
diff --git a/mllm/models/qwen_npu/tokenization_qwen.hpp b/mllm/models/qwen_npu/tokenization_qwen.hpp
index 9f5e080..1859c56 100644
--- a/mllm/models/qwen_npu/tokenization_qwen.hpp
+++ b/mllm/models/qwen_npu/tokenization_qwen.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <vector>
+#include <algorithm>
 #include <unordered_map>
 #include <fstream>
 #include <iostream>
@@ -22,8 +23,10 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + (int64_t)pos,
+                      [](wchar_t expected, wchar_t c) { return expected == static_cast<wchar_t>(std::towlower(c)); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
-- 
2.43.0


From c47ace6045894794b52ecc2a2fc6fe4df1a35757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 079/132] fix: appending past the capacity of a static KV cache
 overwrote other memory

---
 mllm/nn/lmcache/StaticCache.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mllm/nn/lmcache/StaticCache.cpp b/mllm/nn/lmcache/StaticCache.cpp
index d1938d9..876fc83 100644
--- a/mllm/nn/lmcache/StaticCache.cpp
+++ b/mllm/nn/lmcache/StaticCache.cpp
@@ -92,6 +92,10 @@ std::array<Tensor, 2> StaticCache::updateKVCache(int32_t layer_idx, Tensor k, Te
 
     auto inputs_seq_len = k.shape()[2];
 
+    if (current_seq_cnt_[layer_idx] + inputs_seq_len > max_cache_length_) {
+      throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
+    }
+
     auto repeat_times = q_heads_ / kv_heads_;
 
     switch (device_type_) {
@@ -157,6 +161,10 @@ std::array<Tensor, 2> StaticCache::getKVCache(int32_t layer_idx) {
 std::array<Tensor, 2> StaticCache::preGetKVWriteLocation(int32_t layer_idx, int32_t s) {
   if (!use_fa2_) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "StaticCache::preGetKVWriteLocation is not supported in eager mode"); }
 
+  if (current_seq_cnt_[layer_idx] + s > max_cache_length_) {
+    throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
+  }
+
   auto new_shape = {1, s, kv_heads_ * kv_dims_};
   auto k = k_cache_[layer_idx][{kAll, {current_seq_cnt_[layer_idx], current_seq_cnt_[layer_idx] + s}, kAll, kAll}];
   auto v = v_cache_[layer_idx][{kAll, {current_seq_cnt_[layer_idx], current_seq_cnt_[layer_idx] + s}, kAll, kAll}];
-- 
2.43.0


From 69c31d9fda1497f1e74027b0b97fc8c1ee6ee88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 080/132] fix: making a strided tensor contiguous copied the
 wrong elements

---
 mllm/backends/cpu/ops/ContiguousOp.cpp | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/mllm/backends/cpu/ops/ContiguousOp.cpp b/mllm/backends/cpu/ops/ContiguousOp.cpp
index 33a1c8f..eaf5d76 100644
--- a/mllm/backends/cpu/ops/ContiguousOp.cpp
+++ b/mllm/backends/cpu/ops/ContiguousOp.cpp
@@ -74,35 +74,22 @@ void CPUContiguousOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
     return;
   }
 
-  bool last_dim_contiguous = true;
-  for (int d = ndim - 2; d >= 0; --d) {
-    if (i.stride()[d] != i.stride()[d + 1] * i.stride()[d + 1]) {
-      last_dim_contiguous = false;
-      break;
-    }
-  }
+  const bool last_dim_contiguous = ndim > 0 && i.stride()[ndim - 1] == 1;
 
   if (last_dim_contiguous) {
     const int32_t inner_size = i.shape()[ndim - 1];
     const int32_t inner_bytes = inner_size * ele_size;
     const int32_t outer_count = total_elements / inner_size;
 
-    std::vector<int32_t> outer_strides(ndim - 1);
-    int64_t cumulative_stride = 1;
-    for (int d = ndim - 2; d >= 0; --d) {
-      cumulative_stride *= i.shape()[d + 1];
-      outer_strides[d] = i.stride()[d] * cumulative_stride;
-    }
-
     for (int32_t idx = 0; idx < outer_count; ++idx) {
       int64_t offset = 0;
       int32_t temp = idx;
-      for (int d = 0; d < ndim - 1; ++d) {
+      for (int d = ndim - 2; d >= 0; --d) {
         const int32_t dim_index = temp % i.shape()[d];
         temp /= i.shape()[d];
-        offset += dim_index * outer_strides[d];
+        offset += static_cast<int64_t>(dim_index) * i.stride()[d];
       }
-      std::memcpy(dst_ptr, src_ptr + offset * ele_size, inner_bytes);
+      std::memcpy(dst_ptr, src_ptr + offset * static_cast<int64_t>(ele_size), inner_bytes);
       dst_ptr += inner_bytes;
     }
     return;
-- 
2.43.0


From dab087fc6fd489715e0db3b4c8d3c6e65be6323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 081/132] fix: copying or cloning a view copied its whole
 storage

---
 mllm/backends/cpu/ops/CloneOp.cpp |  2 +-
 mllm/backends/cpu/ops/CopyOp.cpp  | 26 ++++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/mllm/backends/cpu/ops/CloneOp.cpp b/mllm/backends/cpu/ops/CloneOp.cpp
index 96109ef..140ae8b 100644
--- a/mllm/backends/cpu/ops/CloneOp.cpp
+++ b/mllm/backends/cpu/ops/CloneOp.cpp
@@ -15,7 +15,7 @@ void CPUCloneOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   // Only Support Contiguous Tensor
   MLLM_RT_ASSERT(i.isContiguous());
 
-  std::memcpy(o.ptr<char>(), i.ptr<char>(), i.bytes());
+  std::memcpy(o.ptr<char>(), i.ptr<char>(), i.numel() / lanesOfType(i.dtype()) * bytesOfType(i.dtype()));
 }
 
 }  // namespace mllm::cpu
diff --git a/mllm/backends/cpu/ops/CopyOp.cpp b/mllm/backends/cpu/ops/CopyOp.cpp
index 33f1cad..d4d8c05 100644
--- a/mllm/backends/cpu/ops/CopyOp.cpp
+++ b/mllm/backends/cpu/ops/CopyOp.cpp
@@ -12,9 +12,31 @@ void CPUCopyOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   auto& i0 = inputs[0];
   auto& i1 = inputs[1];
 
-  // FIXME: Maybe we should handle contiguous issues here.
+  MLLM_RT_ASSERT_EQ(i0.dtype(), i1.dtype());
+  MLLM_RT_ASSERT_EQ(i0.numel(), i1.numel());
 
-  std::memcpy(i1.ptr<char>(), i0.ptr<char>(), i0.bytes());
+  // A view covers only a part of its storage: its size comes from its shape.
+  if (i0.isContiguous() && i1.isContiguous()) {
+    std::memcpy(i1.ptr<char>(), i0.ptr<char>(), i0.numel() / lanesOfType(i0.dtype()) * bytesOfType(i0.dtype()));
+    return;
+  }
+
+  MLLM_RT_ASSERT_EQ(lanesOfType(i0.dtype()), 1);
+  const auto element_size = bytesOfType(i0.dtype());
+  const auto offset_of = [](const Tensor::shape_t& shape, const Tensor::stride_t& stride, int64_t idx) {
+    int64_t offset = 0;
+    for (int d = static_cast<int>(shape.size()) - 1; d >= 0; --d) {
+      offset += (idx % shape[d]) * stride[d];
+      idx /= shape[d];
+    }
+    return offset;
+  };
+  const auto src_shape = i0.shape(), dst_shape = i1.shape();
+  const auto src_stride = i0.stride(), dst_stride = i1.stride();
+  for (int64_t idx = 0; idx < static_cast<int64_t>(i0.numel()); ++idx) {
+    std::memcpy(i1.ptr<char>() + offset_of(dst_shape, dst_stride, idx) * static_cast<int64_t>(element_size),
+                i0.ptr<char>() + offset_of(src_shape, src_stride, idx) * static_cast<int64_t>(element_size), element_size);
+  }
 }
 
 }  // namespace mllm::cpu
-- 
2.43.0


From f658165222790d1cfc8267b910152bdf70366ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 082/132] fix: slices reaching beyond the tensor were accepted

---
 mllm/core/aops/SliceOp.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mllm/core/aops/SliceOp.cpp b/mllm/core/aops/SliceOp.cpp
index ca2a93f..857e1b8 100644
--- a/mllm/core/aops/SliceOp.cpp
+++ b/mllm/core/aops/SliceOp.cpp
@@ -25,7 +25,10 @@ void SliceOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
 void SliceOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
   auto& input = inputs[0];
 
-  if (!input.impl()) { outputs.emplace_back(Tensor::nil()); }
+  if (!input.impl()) {
+    outputs.emplace_back(Tensor::nil());
+    return;
+  }
 
   auto shape = input.shape();
   auto slice_index = options_.indices_;
@@ -55,7 +58,10 @@ void SliceOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
     if (start < 0) { start = start + shape[i]; }
     if (end < 0) { end = end + shape[i]; }
 
-    if (step < 1) { NYI("Mllm only support step >= 1 in operator[] right now"); }
+    // Mllm only support step >= 1 in operator[] right now
+    MLLM_RT_ASSERT(step >= 1);
+    MLLM_RT_ASSERT(start >= 0 && start <= shape[i]);
+    MLLM_RT_ASSERT(end >= 0 && end <= shape[i]);
 
     int32_t num_elements = 0;
     if (end > start) { num_elements = (end - start + step - 1) / step; }
-- 
2.43.0


From b7f1bdb2866fedda3f4c970a2090ef811394ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 083/132] fix: exchanging the first two dimensions of a tensor
 of rank three or more left the result unwritten

---
 mllm/backends/cpu/ops/TransposeOp.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/mllm/backends/cpu/ops/TransposeOp.cpp b/mllm/backends/cpu/ops/TransposeOp.cpp
index d9817f8..0eda8a7 100644
--- a/mllm/backends/cpu/ops/TransposeOp.cpp
+++ b/mllm/backends/cpu/ops/TransposeOp.cpp
@@ -1,6 +1,8 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include <algorithm>
+
 #include "mllm/backends/cpu/ops/TransposeOp.hpp"
 #include "mllm/backends/cpu/kernels/Kernels.hpp"
 #include "mllm/core/DataTypes.hpp"
@@ -91,19 +93,18 @@ void CPUTransposeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   }
 
   // CASE 3. Exchange last 2 dims.
-  // FIXME: (dim0 + dim1 == 1) is error logic.
-  else if (input_shape.size() != 2 && (dim0 + dim1 == 1)) {
-    int batch = 0;
+  else if (input_shape.size() > 2 && dim0 != dim1 && std::min(dim0, dim1) == static_cast<int>(input_shape.size()) - 2) {
+    int batch = 1;
     for (int i = 0; i < input_shape.size() - 2; i++) { batch *= input_shape[i]; }
+    const int rows = input_shape[input_shape.size() - 2];
+    const int cols = input_shape[input_shape.size() - 1];
 
     switch (dtype) {
       case kFloat32: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-        x86::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        x86::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, rows, cols);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        arm::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, rows, cols);
 #endif
         break;
       }
@@ -111,18 +112,15 @@ void CPUTransposeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
         NYI("Transpose op(BSHD -> BSDH) fp16 not supported in x86");
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_fp16(input.ptr<mllm_fp16_t>(), output.ptr<mllm_fp16_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        arm::transpose_last_dims_fp16(input.ptr<mllm_fp16_t>(), output.ptr<mllm_fp16_t>(), batch, rows, cols);
 #endif
         break;
       }
       case kInt64: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-        x86::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[0],
-                                       input_shape[1]);
+        x86::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, rows, cols);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[0],
-                                       input_shape[1]);
+        arm::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, rows, cols);
 #endif
         break;
       }
-- 
2.43.0


From b76967755678b88072704b0eb2e765ce8d7f9bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 084/132] fix: tensors of rank zero or above sixteen were
 written outside their shape arrays

---
 mllm/core/Tensor.cpp         | 3 ++-
 mllm/core/TensorViewImpl.cpp | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/mllm/core/Tensor.cpp b/mllm/core/Tensor.cpp
index 8a26adb..9348f8f 100644
--- a/mllm/core/Tensor.cpp
+++ b/mllm/core/Tensor.cpp
@@ -590,6 +590,7 @@ Tensor Tensor::repeat(int32_t multiplier, int32_t dim) {
 Tensor Tensor::unsqueeze(int32_t dim, bool enable_ssa) {
   if (dim < 0) { dim = static_cast<int32_t>(rank()) + dim + 1; }
   auto this_shape = shape();
+  MLLM_RT_ASSERT(dim >= 0 && dim <= static_cast<int32_t>(this_shape.size()));
   this_shape.insert(this_shape.begin() + dim, 1);
   return view(this_shape, enable_ssa);
 }
@@ -636,7 +637,7 @@ Tensor Tensor::flatten(int32_t dim, bool enable_ssa) {
   if (dim == 0x7fffffff) {
     int32_t total = 1;
     for (auto s : old_shape) total *= s;
-    return view({total});
+    return view({total}, enable_ssa);
   }
 
   if (ndim == 0) return view({1}, enable_ssa);
diff --git a/mllm/core/TensorViewImpl.cpp b/mllm/core/TensorViewImpl.cpp
index 048c0a1..8a9b8b5 100644
--- a/mllm/core/TensorViewImpl.cpp
+++ b/mllm/core/TensorViewImpl.cpp
@@ -86,13 +86,14 @@ TensorViewImpl::ptr_t TensorViewImpl::create() { return std::make_shared<TensorV
 // Will automatic calculate stride for you.
 TensorViewImpl::ptr_t TensorViewImpl::create(const TensorViewImpl::shape_t& shape, const TensorViewImpl::storage_t& storage) {
   auto ret = std::make_shared<TensorViewImpl>();
+  MLLM_RT_ASSERT(shape.size() <= static_cast<size_t>(MLLM_TENSOR_SHAPE_MAX_LEN));
   ret->shape_len_ = shape.size();
   ret->storage_offset_ = 0;
 
   int _cnt = 0;
   for (unsigned int it : shape) { ret->shape_[_cnt++] = (int32_t)it; }
   int _acc = 1;
-  ret->stride_[ret->shape_len_ - 1] = 1;
+  if (ret->shape_len_ > 0) { ret->stride_[ret->shape_len_ - 1] = 1; }
   for (int i = ret->shape_len_ - 1; i > 0; i--) {
     ret->stride_[i - 1] = _acc * ret->shape_[i];
     _acc *= ret->shape_[i];
@@ -105,13 +106,14 @@ TensorViewImpl::ptr_t TensorViewImpl::create(const TensorViewImpl::shape_t& shap
 TensorViewImpl::ptr_t TensorViewImpl::create(int32_t storage_offset, const TensorViewImpl::shape_t& shape,
                                              const TensorViewImpl::storage_t& storage) {
   auto ret = std::make_shared<TensorViewImpl>();
+  MLLM_RT_ASSERT(shape.size() <= static_cast<size_t>(MLLM_TENSOR_SHAPE_MAX_LEN));
   ret->shape_len_ = shape.size();
   ret->storage_offset_ = storage_offset;
 
   int _cnt = 0;
   for (unsigned int it : shape) { ret->shape_[_cnt++] = (int32_t)it; }
   int _acc = 1;
-  ret->stride_[ret->shape_len_ - 1] = 1;
+  if (ret->shape_len_ > 0) { ret->stride_[ret->shape_len_ - 1] = 1; }
   for (int i = ret->shape_len_ - 1; i > 0; i--) {
     ret->stride_[i - 1] = _acc * ret->shape_[i];
     _acc *= ret->shape_[i];
@@ -124,6 +126,7 @@ TensorViewImpl::ptr_t TensorViewImpl::create(int32_t storage_offset, const Tenso
 TensorViewImpl::ptr_t TensorViewImpl::create(int32_t storage_offset, const TensorViewImpl::shape_t& shape,
                                              const TensorViewImpl::stride_t& stride, const TensorViewImpl::storage_t& storage) {
   auto ret = std::make_shared<TensorViewImpl>();
+  MLLM_RT_ASSERT(shape.size() <= static_cast<size_t>(MLLM_TENSOR_SHAPE_MAX_LEN));
   ret->shape_len_ = shape.size();
   ret->storage_offset_ = storage_offset;
 
-- 
2.43.0


From fe76ec73d8f91247dab2ebfff469fbd0a347f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 085/132] fix: transpose, permute, repeat, pad, gather, top-k,
 argsort and scatter ignored the strides of their inputs

---
 mllm/backends/cpu/ops/ArgsortOp.cpp        | 2 +-
 mllm/backends/cpu/ops/GatherOp.cpp         | 4 ++--
 mllm/backends/cpu/ops/PadOp.cpp            | 4 ++--
 mllm/backends/cpu/ops/PermuteOp.cpp        | 2 +-
 mllm/backends/cpu/ops/RepeatOp.cpp         | 2 +-
 mllm/backends/cpu/ops/Scatter2ShardsOp.cpp | 4 ++--
 mllm/backends/cpu/ops/TopKOp.cpp           | 2 +-
 mllm/backends/cpu/ops/TransposeOp.cpp      | 2 +-
 8 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/mllm/backends/cpu/ops/ArgsortOp.cpp b/mllm/backends/cpu/ops/ArgsortOp.cpp
index 646499c..56910a6 100644
--- a/mllm/backends/cpu/ops/ArgsortOp.cpp
+++ b/mllm/backends/cpu/ops/ArgsortOp.cpp
@@ -49,7 +49,7 @@ void argsort_impl(const T* input_data, int32_t* indices_data, int outer_size, in
 
 __MLLM_UNSAFE_OPT_BEGIN_O3_FAST_MATH
 void CPUArgsortOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  auto input = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& indices = outputs[0];
 
   auto dtype = input.dtype();
diff --git a/mllm/backends/cpu/ops/GatherOp.cpp b/mllm/backends/cpu/ops/GatherOp.cpp
index dd8d0a8..f28cbd9 100644
--- a/mllm/backends/cpu/ops/GatherOp.cpp
+++ b/mllm/backends/cpu/ops/GatherOp.cpp
@@ -9,8 +9,8 @@ namespace mllm::cpu {
 CPUGatherOp::CPUGatherOp(const aops::GatherOpOptions& options) : aops::GatherOp(options) {}
 
 void CPUGatherOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& table = inputs[0];
-  auto& indices = inputs[1];
+  auto table = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
+  auto indices = inputs[1].isContiguous() ? inputs[1] : Tensor(inputs[1]).contiguous();
   auto& output = outputs[0];
 
   int dim = options_.dim;
diff --git a/mllm/backends/cpu/ops/PadOp.cpp b/mllm/backends/cpu/ops/PadOp.cpp
index ba363c8..f2f274c 100644
--- a/mllm/backends/cpu/ops/PadOp.cpp
+++ b/mllm/backends/cpu/ops/PadOp.cpp
@@ -51,10 +51,10 @@ static inline int32_t circular_index(int32_t x, int32_t size) {
 }
 
 void CPUPadOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& X = inputs[0];
+  const auto X = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& Y = outputs[0];
 
-  const auto& in_shape = X.shape();
+  const auto in_shape = X.shape();
   const auto& opts = options();
   const auto& pad = opts.pad;  // [last_dim_left, last_dim_right, ..., first_dim_left, first_dim_right]
 
diff --git a/mllm/backends/cpu/ops/PermuteOp.cpp b/mllm/backends/cpu/ops/PermuteOp.cpp
index 995b798..6972b53 100644
--- a/mllm/backends/cpu/ops/PermuteOp.cpp
+++ b/mllm/backends/cpu/ops/PermuteOp.cpp
@@ -10,7 +10,7 @@ namespace mllm::cpu {
 CPUPermuteOp::CPUPermuteOp(const aops::PermuteOpOptions& options) : aops::PermuteOp(options) {}
 
 void CPUPermuteOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  auto input = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& output = outputs[0];
 
   auto dtype = input.dtype();
diff --git a/mllm/backends/cpu/ops/RepeatOp.cpp b/mllm/backends/cpu/ops/RepeatOp.cpp
index 32a0578..c48ee2e 100644
--- a/mllm/backends/cpu/ops/RepeatOp.cpp
+++ b/mllm/backends/cpu/ops/RepeatOp.cpp
@@ -9,7 +9,7 @@ namespace mllm::cpu {
 CPURepeatOp::CPURepeatOp(const aops::RepeatOpOptions& options) : aops::RepeatOp(options) {}
 
 void CPURepeatOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& X = inputs[0];
+  const auto X = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& Y = outputs[0];
 
   auto multiplier = options_.repeat_times;
diff --git a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
index cde9497..7dfa595 100644
--- a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
+++ b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
@@ -11,8 +11,8 @@ namespace mllm::cpu {
 CPUScatter2ShardsOp::CPUScatter2ShardsOp(const aops::Scatter2ShardsOpOptions& options) : aops::Scatter2ShardsOp(options) {}
 
 void CPUScatter2ShardsOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& src = inputs[0];
-  const auto& dst_ptrs = inputs[1];
+  const auto src = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
+  const auto dst_ptrs = inputs[1].isContiguous() ? inputs[1] : Tensor(inputs[1]).contiguous();
 
   // Validation
   MLLM_RT_ASSERT(dst_ptrs.dtype() == kInt64 && dst_ptrs.rank() == 1 && dst_ptrs.shape()[0] == src.shape()[options_.dim]);
diff --git a/mllm/backends/cpu/ops/TopKOp.cpp b/mllm/backends/cpu/ops/TopKOp.cpp
index 43add5d..ea091d6 100644
--- a/mllm/backends/cpu/ops/TopKOp.cpp
+++ b/mllm/backends/cpu/ops/TopKOp.cpp
@@ -72,7 +72,7 @@ void topk_impl(const T* input_data, T* values_data, int32_t* indices_data, int o
 
 __MLLM_UNSAFE_OPT_BEGIN_O3_FAST_MATH
 void CPUTopKOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  auto input = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& values = outputs[0];
   auto& indices = outputs[1];
 
diff --git a/mllm/backends/cpu/ops/TransposeOp.cpp b/mllm/backends/cpu/ops/TransposeOp.cpp
index 0eda8a7..d1a9756 100644
--- a/mllm/backends/cpu/ops/TransposeOp.cpp
+++ b/mllm/backends/cpu/ops/TransposeOp.cpp
@@ -12,7 +12,7 @@ namespace mllm::cpu {
 CPUTransposeOp::CPUTransposeOp(const aops::TransposeOpOptions& options) : aops::TransposeOp(options) {}
 
 void CPUTransposeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  auto input = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& output = outputs[0];
 
   auto dtype = input.dtype();
-- 
2.43.0


From abdaa5b2e858702a1a3741392218e4e7a88cf410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 086/132] fix: scattering along the first or last dimension
 moved the wrong elements

---
 mllm/backends/cpu/ops/Scatter2ShardsOp.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
index 7dfa595..0161493 100644
--- a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
+++ b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
@@ -15,6 +15,7 @@ void CPUScatter2ShardsOp::forward(const std::vector<Tensor>& inputs, std::vector
   const auto dst_ptrs = inputs[1].isContiguous() ? inputs[1] : Tensor(inputs[1]).contiguous();
 
   // Validation
+  MLLM_RT_ASSERT(options_.dim >= 0 && options_.dim < static_cast<int32_t>(src.rank()));
   MLLM_RT_ASSERT(dst_ptrs.dtype() == kInt64 && dst_ptrs.rank() == 1 && dst_ptrs.shape()[0] == src.shape()[options_.dim]);
 
   // [B, H, S, D]
@@ -26,8 +27,6 @@ void CPUScatter2ShardsOp::forward(const std::vector<Tensor>& inputs, std::vector
   for (int i = options_.dim + 1; i < src.rank(); ++i) { floating_shards_point_right *= src.shape()[i]; }
   int32_t floating_shards_point_stride = 1;
   for (int i = options_.dim; i < src.rank(); ++i) { floating_shards_point_stride *= src.shape()[i]; }
-  if (options_.dim == src.rank() - 1) { floating_shards_point_stride = 1; }
-  if (options_.dim == 0) { floating_shards_point_left = src.stride()[0]; }
 
   int32_t loop_times = src.shape()[options_.dim];
   for (int lo = 0; lo < loop_times; ++lo) {
-- 
2.43.0


From 86cb31e8096cbef3c53bafe420d1605142de2d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 087/132] fix: gather returned uninitialised memory for
 unsupported types and indices out of range

---
 mllm/backends/cpu/ops/GatherOp.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mllm/backends/cpu/ops/GatherOp.cpp b/mllm/backends/cpu/ops/GatherOp.cpp
index f28cbd9..e30e6ec 100644
--- a/mllm/backends/cpu/ops/GatherOp.cpp
+++ b/mllm/backends/cpu/ops/GatherOp.cpp
@@ -30,7 +30,7 @@ void CPUGatherOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>
     case MLLM_TYPE_F32: data_type_size = sizeof(float); break;
     case MLLM_TYPE_F16: data_type_size = sizeof(mllm_fp16_t); break;
     case MLLM_TYPE_I32: data_type_size = sizeof(int32_t); break;
-    default: MLLM_ERROR("GatherOp table type not supported: {}", (int)table.dtype());
+    default: MLLM_ERROR_EXIT(ExitCode::kCoreError, "GatherOp table type not supported: {}", (int)table.dtype());
   }
 
   const uint8_t* table_ptr = table.ptr<uint8_t>();
@@ -40,8 +40,7 @@ void CPUGatherOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>
   const float* indices_f32 = !indices_i32 && indices.dtype() == MLLM_TYPE_F32 ? indices.ptr<float>() : nullptr;
 
   if (!indices_i32 && !indices_f32) {
-    MLLM_ERROR("GatherOp indices type not supported: {}", (int)indices.dtype());
-    return;
+    MLLM_ERROR_EXIT(ExitCode::kCoreError, "GatherOp indices type not supported: {}", (int)indices.dtype());
   }
 
   // FIXME: parallel
@@ -56,7 +55,7 @@ void CPUGatherOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>
 
       if (idx < 0) idx += dim_size;
 
-      if (idx < 0 || idx >= dim_size) { continue; }
+      MLLM_RT_ASSERT(idx >= 0 && idx < dim_size);
 
       int64_t src_offset = (o * dim_size + idx) * inner_size * data_type_size;
       int64_t dst_offset = (o * indices_count + i) * inner_size * data_type_size;
-- 
2.43.0


From 30cc14b38ce9aa00f106ba43c3c0ce4f839382bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 088/132] fix: concat and stack accepted inputs that differ in
 rank or data type

---
 mllm/core/aops/ConcatOp.cpp | 8 +++++++-
 mllm/core/aops/StackOp.cpp  | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mllm/core/aops/ConcatOp.cpp b/mllm/core/aops/ConcatOp.cpp
index 0fd5d0c..062b131 100644
--- a/mllm/core/aops/ConcatOp.cpp
+++ b/mllm/core/aops/ConcatOp.cpp
@@ -32,12 +32,18 @@ void ConcatOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
   }
   const int n_dims = inputs[0].shape().size();
   if (at_dim < 0) { at_dim += n_dims; }
-  if (at_dim >= n_dims) {
+  if (at_dim < 0 || at_dim >= n_dims) {
     MLLM_ERROR_EXIT(ExitCode::kCoreError, "ConcatOp: dim {} out of range [0, {})", at_dim, n_dims);
     return;
   }
 
   // Check
+  for (const auto& t : inputs) {
+    if (t.shape().size() != inputs[0].shape().size() || t.dtype() != inputs[0].dtype()) {
+      MLLM_ERROR_EXIT(ExitCode::kCoreError, "ConcatOp: inputs differ in rank or data type");
+      return;
+    }
+  }
   for (int d = 0; d < n_dims; ++d) {
     if (d == at_dim) continue;
     const int ref = inputs[0].shape()[d];
diff --git a/mllm/core/aops/StackOp.cpp b/mllm/core/aops/StackOp.cpp
index 858bf27..15b6876 100644
--- a/mllm/core/aops/StackOp.cpp
+++ b/mllm/core/aops/StackOp.cpp
@@ -42,8 +42,8 @@ void StackOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
 
   // Check all input shapes equal
   for (size_t i = 1; i < inputs.size(); ++i) {
-    if (inputs[i].shape() != inputs[0].shape()) {
-      MLLM_ERROR_EXIT(ExitCode::kCoreError, "StackOp: input shape mismatch");
+    if (inputs[i].shape() != inputs[0].shape() || inputs[i].dtype() != inputs[0].dtype()) {
+      MLLM_ERROR_EXIT(ExitCode::kCoreError, "StackOp: input shape or data type mismatch");
       return;
     }
   }
-- 
2.43.0


From ce2783ff1e7b832593344a03df036ad4d8a6b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 089/132] fix: split, top-k, argsort, repeat, permute and pad
 used parameters out of range

---
 mllm/core/aops/ArgsortOp.cpp |  2 ++
 mllm/core/aops/PadOp.cpp     |  3 +++
 mllm/core/aops/PermuteOp.cpp | 10 ++++++++--
 mllm/core/aops/RepeatOp.cpp  |  2 ++
 mllm/core/aops/SplitOp.cpp   |  8 +++++++-
 mllm/core/aops/TopKOp.cpp    |  3 +++
 6 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/mllm/core/aops/ArgsortOp.cpp b/mllm/core/aops/ArgsortOp.cpp
index 35e2f4d..814ab83 100644
--- a/mllm/core/aops/ArgsortOp.cpp
+++ b/mllm/core/aops/ArgsortOp.cpp
@@ -30,6 +30,8 @@ void ArgsortOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 
   if (!input.isNil()) {
     auto input_shape = input.shape();
+    const int32_t rank = static_cast<int32_t>(input_shape.size());
+    MLLM_RT_ASSERT(options_.dim >= -rank && options_.dim < rank);
     // Output indices tensor has the same shape as input
     outputs.emplace_back(Tensor::empty(input_shape, kInt32, input.device()));
   }
diff --git a/mllm/core/aops/PadOp.cpp b/mllm/core/aops/PadOp.cpp
index 5421b81..c397875 100644
--- a/mllm/core/aops/PadOp.cpp
+++ b/mllm/core/aops/PadOp.cpp
@@ -34,6 +34,9 @@ void PadOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& outp
     int32_t low = (idx < pad.size()) ? pad[idx] : 0;
     int32_t high = (idx + 1 < pad.size()) ? pad[idx + 1] : 0;
     out_shape[d] += low + high;
+    MLLM_RT_ASSERT(out_shape[d] >= 0);
+    // Only constant padding can extend an empty dimension
+    MLLM_RT_ASSERT(options_.mode == PadMode::kConstant || i.shape()[d] > 0 || out_shape[d] == 0);
   }
 
   outputs.emplace_back(Tensor::empty(out_shape, i.dtype(), i.device()));
diff --git a/mllm/core/aops/PermuteOp.cpp b/mllm/core/aops/PermuteOp.cpp
index a34eaad..3057ccf 100644
--- a/mllm/core/aops/PermuteOp.cpp
+++ b/mllm/core/aops/PermuteOp.cpp
@@ -26,11 +26,17 @@ void PermuteOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 
 void PermuteOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
   auto& input = inputs[0];
-  auto& output = outputs[0];
-
   auto input_shape = input.shape();
   std::vector<int32_t> output_shape(input_shape.size());
 
+  // The axes must be a permutation of the input's dimensions
+  MLLM_RT_ASSERT_EQ(options_.axis.size(), input_shape.size());
+  std::vector<bool> seen(input_shape.size(), false);
+  for (auto axis : options_.axis) {
+    MLLM_RT_ASSERT(axis >= 0 && axis < static_cast<int32_t>(input_shape.size()) && !seen[axis]);
+    seen[axis] = true;
+  }
+
   for (int i = 0; i < input_shape.size(); ++i) { output_shape[i] = input_shape[options_.axis[i]]; }
 
   outputs.emplace_back(Tensor::empty(output_shape, input.dtype(), input.device()));
diff --git a/mllm/core/aops/RepeatOp.cpp b/mllm/core/aops/RepeatOp.cpp
index 87e8a83..0e6f6e0 100644
--- a/mllm/core/aops/RepeatOp.cpp
+++ b/mllm/core/aops/RepeatOp.cpp
@@ -27,6 +27,8 @@ void RepeatOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
 void RepeatOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
   const auto& i = inputs[0];
   auto i_shape = i.shape();
+  MLLM_RT_ASSERT(options_.dim >= 0 && options_.dim < static_cast<int32_t>(i_shape.size()));
+  MLLM_RT_ASSERT(options_.repeat_times >= 0);
   i_shape[options_.dim] *= options_.repeat_times;
   outputs.emplace_back(Tensor::empty(i_shape, i.dtype(), i.device()));
 }
diff --git a/mllm/core/aops/SplitOp.cpp b/mllm/core/aops/SplitOp.cpp
index a9fa285..7081672 100644
--- a/mllm/core/aops/SplitOp.cpp
+++ b/mllm/core/aops/SplitOp.cpp
@@ -29,7 +29,10 @@ void SplitOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
 
   if (split_at_dim < 0) split_at_dim = it.shape().size() + split_at_dim;
 
+  MLLM_RT_ASSERT(split_at_dim >= 0 && split_at_dim < static_cast<int>(it.shape().size()));
+
   if (options_.split_size_or_sections.size() == 1) {
+    MLLM_RT_ASSERT(options_.split_size_or_sections[0] > 0);
     MLLM_RT_ASSERT_EQ(it.shape()[split_at_dim] % options_.split_size_or_sections[0], 0);
 
     for (int i = 0; i < it.shape()[split_at_dim] / options_.split_size_or_sections[0]; ++i) {
@@ -37,7 +40,10 @@ void SplitOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
     }
   } else {
     int cnt = 0;
-    for (int split_size_or_section : options_.split_size_or_sections) { cnt += split_size_or_section; }
+    for (int split_size_or_section : options_.split_size_or_sections) {
+      MLLM_RT_ASSERT(split_size_or_section >= 0);
+      cnt += split_size_or_section;
+    }
 
     MLLM_RT_ASSERT_EQ(cnt, it.shape()[split_at_dim]);
 
diff --git a/mllm/core/aops/TopKOp.cpp b/mllm/core/aops/TopKOp.cpp
index f8941e3..02b97f1 100644
--- a/mllm/core/aops/TopKOp.cpp
+++ b/mllm/core/aops/TopKOp.cpp
@@ -37,6 +37,9 @@ void TopKOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& out
     // Handle negative dimension index
     if (dim < 0) { dim += input_shape.size(); }
 
+    MLLM_RT_ASSERT(dim >= 0 && dim < static_cast<int32_t>(input_shape.size()));
+    MLLM_RT_ASSERT(options_.k > 0 && options_.k <= input_shape[dim]);
+
     // Replace the specified dimension with k
     values_shape[dim] = options_.k;
     indices_shape[dim] = options_.k;
-- 
2.43.0


From 7957617f8b22b48384a0a09244fd25955e450299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 090/132] fix: indexing with lists or tensors mishandled views,
 slices, index tensors of rank two and indices out of range

---
 mllm/core/aops/IndexOp.cpp | 59 +++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/mllm/core/aops/IndexOp.cpp b/mllm/core/aops/IndexOp.cpp
index 2c1b557..6c28a2f 100644
--- a/mllm/core/aops/IndexOp.cpp
+++ b/mllm/core/aops/IndexOp.cpp
@@ -9,6 +9,19 @@
 
 namespace mllm::aops {
 
+// Same rules as SliceOp
+static void resolveSlice(const SliceIndicesPair& slice, int size, int& start, int& end, int& step) {
+  start = slice.start_ == kAll ? 0 : slice.start_;
+  end = slice.end_ == kAll ? size : slice.end_;
+  step = slice.step_;
+  if (start < 0 && end - start == 1) { end += size; }
+  if (start < 0) { start += size; }
+  if (end < 0) { end += size; }
+  MLLM_RT_ASSERT(step >= 1);
+  MLLM_RT_ASSERT(start >= 0 && start <= size);
+  MLLM_RT_ASSERT(end >= 0 && end <= size);
+}
+
 IndexOp::IndexOp(const IndexOpOptions& options) : BaseOp(OpTypes::kIndex), options_(options) {}
 
 void IndexOp::load(const ParameterFile::ptr_t& ploader) { MLLM_EMPTY_SCOPE; }
@@ -39,7 +52,8 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
   MLLM_RT_ASSERT(output.isContiguous());
 
   auto output_shape = output.shape();
-  size_t element_size = input.bytes() / input.numel();
+  MLLM_RT_ASSERT_EQ(lanesOfType(input.dtype()), 1);
+  size_t element_size = bytesOfType(input.dtype());
 
   // Create index vectors for iteration
   std::vector<int> out_indices(output_shape.size(), 0);
@@ -55,6 +69,7 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
   for (const auto& index : indices) {
     if (index.tensor_indices_.has_value()) {
       const auto& tensor = index.tensor_indices_.value();
+      MLLM_RT_ASSERT_EQ(tensor.dtype(), kInt32);
       tensor_ptrs.push_back(tensor.ptr<int32_t>());
       tensor_shapes.push_back(tensor.shape());
     } else {
@@ -82,8 +97,8 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
       if (index.slice_indices_.has_value()) {
         // Slice indexing
         auto slice = index.slice_indices_.value();
-        int start = slice.start_ == kAll ? 0 : slice.start_;
-        int step = slice.step_;
+        int start, end, step;
+        resolveSlice(slice, shape[j], start, end, step);
         in_indices[j] = start + out_indices[out_dim] * step;
         out_dim++;
 
@@ -112,29 +127,9 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
         const auto& index_tensor = index.tensor_indices_.value();
         const auto& tensor_shape = tensor_shapes[j];
 
-        // Calculate linear index into the index tensor
-        size_t tensor_index = 0;
-        size_t stride = 1;
-
-        for (int k = static_cast<int>(tensor_shape.size()) - 1; k >= 0; --k) {
-          if (out_dim >= out_indices.size()) {
-            valid_index = false;
-            break;
-          }
-          tensor_index += out_indices[out_dim] * stride;
-          stride *= tensor_shape[k];
-          out_dim++;
-        }
-
-        if (!valid_index) break;
-
-        // Convert linear index to multi-dimensional indices for the index tensor
+        // The index tensor takes as many output dimensions as it has itself
         std::vector<int> tensor_indices(tensor_shape.size());
-        size_t temp_index = tensor_index;
-        for (int k = static_cast<int>(tensor_shape.size()) - 1; k >= 0; --k) {
-          tensor_indices[k] = temp_index % tensor_shape[k];
-          temp_index /= tensor_shape[k];
-        }
+        for (size_t k = 0; k < tensor_shape.size(); ++k) { tensor_indices[k] = out_indices[out_dim++]; }
 
         // Get the index value from the tensor using at<int32_t>
         in_indices[j] = index_tensor.constAt<int32_t>(tensor_indices);
@@ -147,8 +142,9 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
       }
     }
 
-    // Copy data if indices are valid
-    if (valid_index) {
+    MLLM_RT_ASSERT(valid_index);
+
+    {
       // Calculate input offset
       size_t in_offset = 0;
       size_t multiplier = 1;
@@ -194,7 +190,7 @@ void IndexOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
         continue;
       }
       if (index.tensor_indices_.has_value()) {
-        cnt += index.tensor_indices_->shape().size();
+        cnt++;
         continue;
       }
       if (index.vector_indices_.has_value()) {
@@ -220,11 +216,10 @@ void IndexOp::calculateOutputShape(const Tensor& input, Tensor::shape_t& o_shape
     auto& index = indices[i];
     if (index.slice_indices_.has_value()) {
       auto slice = index.slice_indices_.value();
-      int start = slice.start_ == kAll ? 0 : slice.start_;
-      int end = slice.end_ == kAll ? shape[i] : slice.end_;
-      int step = slice.step_;
+      int start, end, step;
+      resolveSlice(slice, shape[i], start, end, step);
       // Calculate output dimension size
-      int dim_size = (end - start + step - 1) / step;
+      int dim_size = end > start ? (end - start + step - 1) / step : 0;
       o_shape.push_back(dim_size);
     } else if (index.vector_indices_.has_value()) {
       // When indexed by a vector, the output dimension size equals vector size
-- 
2.43.0


From 634c4aa42461c4989cad77856316978130ee3e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 091/132] fix: masked scatter took the source elements from the
 wrong positions

---
 mllm/backends/cpu/ops/MaskedScatterOp.cpp | 221 ++++------------------
 1 file changed, 41 insertions(+), 180 deletions(-)

diff --git a/mllm/backends/cpu/ops/MaskedScatterOp.cpp b/mllm/backends/cpu/ops/MaskedScatterOp.cpp
index e41c568..ac74a13 100644
--- a/mllm/backends/cpu/ops/MaskedScatterOp.cpp
+++ b/mllm/backends/cpu/ops/MaskedScatterOp.cpp
@@ -12,208 +12,69 @@ namespace mllm::cpu {
 
 CPUMaskedScatterOp::CPUMaskedScatterOp(const aops::MaskedScatterOpOptions& options) : aops::MaskedScatterOp(options) {}
 
-// Helper function to calculate broadcast shape
-std::vector<int32_t> calculateBroadcastShape(const std::vector<int32_t>& shape_a, const std::vector<int32_t>& shape_b) {
-  // Determine the maximum number of dimensions
-  size_t max_ndim = std::max(shape_a.size(), shape_b.size());
-  std::vector<int32_t> broadcast_shape(max_ndim);
-
-  // Pad shapes to the same number of dimensions
-  std::vector<int32_t> padded_a(max_ndim, 1);
-  std::vector<int32_t> padded_b(max_ndim, 1);
-
-  // Copy original shapes to the end (right-aligned)
-  std::copy(shape_a.begin(), shape_a.end(), padded_a.begin() + (max_ndim - shape_a.size()));
-  std::copy(shape_b.begin(), shape_b.end(), padded_b.begin() + (max_ndim - shape_b.size()));
-
-  // Calculate broadcast shape
-  for (size_t i = 0; i < max_ndim; ++i) {
-    if (padded_a[i] == padded_b[i]) {
-      broadcast_shape[i] = padded_a[i];
-    } else if (padded_a[i] == 1) {
-      broadcast_shape[i] = padded_b[i];
-    } else if (padded_b[i] == 1) {
-      broadcast_shape[i] = padded_a[i];
-    } else {
-      // Cannot broadcast, should not happen in valid cases
-      broadcast_shape[i] = std::max(padded_a[i], padded_b[i]);
+namespace MLLM_ANONYMOUS_NAMESPACE {
+
+// Fills the masked elements of dst, in row-major order, with the elements of src, in row-major order.
+template<typename T>
+void masked_scatter_impl(const Tensor& dst, const Tensor& mask, const Tensor& src) {
+  const auto dst_shape = dst.shape();
+  const auto mask_shape = mask.shape();
+  const auto dst_stride = dst.stride();
+  const auto mask_stride = mask.stride();
+  const int dims = static_cast<int>(dst_shape.size());
+  const int offset = dims - static_cast<int>(mask_shape.size());
+
+  MLLM_RT_ASSERT(offset >= 0);
+  for (int d = offset; d < dims; ++d) { MLLM_RT_ASSERT(mask_shape[d - offset] == dst_shape[d] || mask_shape[d - offset] == 1); }
+
+  T* dst_ptr = dst.ptr<T>();
+  const T* src_ptr = src.ptr<T>();
+  const auto* mask_ptr = mask.ptr<mllm_int8_t>();
+
+  const int64_t total = static_cast<int64_t>(dst.numel());
+  const auto for_each_masked = [&](auto&& fn) {
+    for (int64_t i = 0; i < total; ++i) {
+      int64_t rest = i, dst_offset = 0, mask_offset = 0;
+      for (int d = dims - 1; d >= 0; --d) {
+        const int64_t idx = rest % dst_shape[d];
+        rest /= dst_shape[d];
+        dst_offset += idx * dst_stride[d];
+        if (d >= offset && mask_shape[d - offset] != 1) { mask_offset += idx * mask_stride[d - offset]; }
+      }
+      if (mask_ptr[mask_offset] != 0) { fn(dst_offset); }
     }
-  }
+  };
 
-  return broadcast_shape;
-}
+  size_t masked = 0;
+  for_each_masked([&](int64_t) { masked++; });
+  MLLM_RT_ASSERT(masked <= src.numel());
 
-// Helper function to calculate strides for broadcasting
-std::vector<int32_t> calculateStrides(const std::vector<int32_t>& shape) {
-  std::vector<int32_t> strides(shape.size(), 1);
-  for (int i = shape.size() - 2; i >= 0; --i) { strides[i] = strides[i + 1] * shape[i + 1]; }
-  return strides;
+  size_t taken = 0;
+  for_each_masked([&](int64_t dst_offset) { dst_ptr[dst_offset] = src_ptr[taken++]; });
 }
 
-// Helper function to convert multi-dimensional index to linear index
-int32_t getLinearIndex(const std::vector<int32_t>& indices, const std::vector<int32_t>& strides) {
-  int32_t linear_index = 0;
-  for (size_t i = 0; i < indices.size(); ++i) { linear_index += indices[i] * strides[i]; }
-  return linear_index;
-}
-
-// Helper function to convert linear index to multi-dimensional indices
-std::vector<int32_t> getMultiDimIndices(int32_t linear_index, const std::vector<int32_t>& shape) {
-  std::vector<int32_t> indices(shape.size());
-  for (int i = shape.size() - 1; i >= 0; --i) {
-    indices[i] = linear_index % shape[i];
-    linear_index /= shape[i];
-  }
-  return indices;
-}
+}  // namespace MLLM_ANONYMOUS_NAMESPACE
 
 void CPUMaskedScatterOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  // dst, mask, src
+  // dst, mask, src. The output is dst itself (in-place operation).
   auto& dst = inputs[0];
   auto& mask = inputs[1];
-  auto& src = inputs[2];
+  const auto src = inputs[2].isContiguous() ? inputs[2] : Tensor(inputs[2]).contiguous();
 
   MLLM_RT_ASSERT_EQ(mask.dtype(), kInt8);
 
-  // dst and output should be the same tensor (in-place operation)
-  // But we still need to ensure output has the correct shape
-  auto& output = outputs[0];
-
-  // Get shapes
-  auto dst_shape = dst.shape();
-  auto mask_shape = mask.shape();
-  auto src_shape = src.shape();
-
-  // Calculate broadcast shape for all tensors
-  auto broadcast_shape = calculateBroadcastShape(dst_shape, mask_shape);
-  broadcast_shape = calculateBroadcastShape(broadcast_shape, src_shape);
-
-  // Calculate strides for broadcasting
-  auto dst_strides = calculateStrides(dst_shape);
-  auto mask_strides = calculateStrides(mask_shape);
-  auto src_strides = calculateStrides(src_shape);
-  auto broadcast_strides = calculateStrides(broadcast_shape);
-
-  // Calculate total elements
-  int32_t total_elements = std::accumulate(broadcast_shape.begin(), broadcast_shape.end(), 1, std::multiplies<>());
-
   // Check data types
   MLLM_RT_ASSERT(dst.dtype() == src.dtype());
 
   // Handle different data types
   if (dst.dtype() == MLLM_TYPE_F32) {
-    float* dst_ptr = dst.ptr<float>();
-    float* src_ptr = src.ptr<float>();
-    uint8_t* mask_ptr = mask.ptr<uint8_t>();
-
-    for (int32_t i = 0; i < total_elements; ++i) {
-      // Convert linear index to multi-dimensional indices
-      auto indices = getMultiDimIndices(i, broadcast_shape);
-
-      // Calculate index for mask with broadcasting
-      int32_t mask_linear_index = 0;
-      if (mask_shape.size() == 1 && mask_shape[0] == 1) {
-        // Scalar mask
-        mask_linear_index = 0;
-      } else {
-        // Multi-dimensional mask
-        std::vector<int32_t> mask_indices(mask_shape.size());
-        int offset = broadcast_shape.size() - mask_shape.size();
-        for (size_t j = 0; j < mask_shape.size(); ++j) { mask_indices[j] = indices[j + offset] % mask_shape[j]; }
-        mask_linear_index = getLinearIndex(mask_indices, mask_strides);
-      }
-
-      // If mask is true, copy from src to dst
-      if (mask_ptr[mask_linear_index] != 0) {
-        // Calculate index for dst
-        int32_t dst_linear_index = 0;
-        if (dst_shape.size() == 1 && dst_shape[0] == 1) {
-          // Scalar dst
-          dst_linear_index = 0;
-        } else {
-          // Multi-dimensional dst
-          std::vector<int32_t> dst_indices(dst_shape.size());
-          int offset = broadcast_shape.size() - dst_shape.size();
-          for (size_t j = 0; j < dst_shape.size(); ++j) { dst_indices[j] = indices[j + offset] % dst_shape[j]; }
-          dst_linear_index = getLinearIndex(dst_indices, dst_strides);
-        }
-
-        // Calculate index for src with broadcasting
-        int32_t src_linear_index = 0;
-        if (src_shape.size() == 1 && src_shape[0] == 1) {
-          // Scalar src
-          src_linear_index = 0;
-        } else {
-          // Multi-dimensional src
-          std::vector<int32_t> src_indices(src_shape.size());
-          int offset = broadcast_shape.size() - src_shape.size();
-          for (size_t j = 0; j < src_shape.size(); ++j) { src_indices[j] = indices[j + offset] % src_shape[j]; }
-          src_linear_index = getLinearIndex(src_indices, src_strides);
-        }
-
-        dst_ptr[dst_linear_index] = src_ptr[src_linear_index];
-      }
-    }
+    masked_scatter_impl<float>(dst, mask, src);
   } else if (dst.dtype() == MLLM_TYPE_F16) {
-    mllm_fp16_t* dst_ptr = dst.ptr<mllm_fp16_t>();
-    mllm_fp16_t* src_ptr = src.ptr<mllm_fp16_t>();
-    uint8_t* mask_ptr = mask.ptr<uint8_t>();
-
-    for (int32_t i = 0; i < total_elements; ++i) {
-      // Convert linear index to multi-dimensional indices
-      auto indices = getMultiDimIndices(i, broadcast_shape);
-
-      // Calculate index for mask with broadcasting
-      int32_t mask_linear_index = 0;
-      if (mask_shape.size() == 1 && mask_shape[0] == 1) {
-        // Scalar mask
-        mask_linear_index = 0;
-      } else {
-        // Multi-dimensional mask
-        std::vector<int32_t> mask_indices(mask_shape.size());
-        int offset = broadcast_shape.size() - mask_shape.size();
-        for (size_t j = 0; j < mask_shape.size(); ++j) { mask_indices[j] = indices[j + offset] % mask_shape[j]; }
-        mask_linear_index = getLinearIndex(mask_indices, mask_strides);
-      }
-
-      // If mask is true, copy from src to dst
-      if (mask_ptr[mask_linear_index] != 0) {
-        // Calculate index for dst
-        int32_t dst_linear_index = 0;
-        if (dst_shape.size() == 1 && dst_shape[0] == 1) {
-          // Scalar dst
-          dst_linear_index = 0;
-        } else {
-          // Multi-dimensional dst
-          std::vector<int32_t> dst_indices(dst_shape.size());
-          int offset = broadcast_shape.size() - dst_shape.size();
-          for (size_t j = 0; j < dst_shape.size(); ++j) { dst_indices[j] = indices[j + offset] % dst_shape[j]; }
-          dst_linear_index = getLinearIndex(dst_indices, dst_strides);
-        }
-
-        // Calculate index for src with broadcasting
-        int32_t src_linear_index = 0;
-        if (src_shape.size() == 1 && src_shape[0] == 1) {
-          // Scalar src
-          src_linear_index = 0;
-        } else {
-          // Multi-dimensional src
-          std::vector<int32_t> src_indices(src_shape.size());
-          int offset = broadcast_shape.size() - src_shape.size();
-          for (size_t j = 0; j < src_shape.size(); ++j) { src_indices[j] = indices[j + offset] % src_shape[j]; }
-          src_linear_index = getLinearIndex(src_indices, src_strides);
-        }
-
-        dst_ptr[dst_linear_index] = src_ptr[src_linear_index];
-      }
-    }
+    masked_scatter_impl<mllm_fp16_t>(dst, mask, src);
   } else {
     // For other data types, we could add support similarly
     NYI("Unsupported data type for MaskedScatter operation");
   }
-
-  // Copy result to output
-  if (output.ptr<void>() != dst.ptr<void>()) { std::memcpy(output.ptr<void>(), dst.ptr<void>(), dst.bytes()); }
 }
 
 }  // namespace mllm::cpu
-- 
2.43.0


From 8e40247d27b583cd3ad0a238c08a6e51454a8a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 092/132] fix: embedding read outside the table for a token id
 out of range

---
 mllm/backends/cpu/ops/EmbeddingOp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mllm/backends/cpu/ops/EmbeddingOp.cpp b/mllm/backends/cpu/ops/EmbeddingOp.cpp
index 71af75f..c15a933 100644
--- a/mllm/backends/cpu/ops/EmbeddingOp.cpp
+++ b/mllm/backends/cpu/ops/EmbeddingOp.cpp
@@ -27,6 +27,11 @@ void CPUEmbeddingOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   const int thread_count = options_.getThreads();
   for (int b = 0; b < B; ++b) {
     MLLM_CONDITIONAL_PARALLEL_FOR(use_parallel, thread_count, s, 0, S, 1, {
+      // The table has vocab_size rows. Only the quantized tables skip negative ids.
+      const mllm_int64_t token = *ins.coffsettedPtr<mllm_int64_t>({b, (int)s});
+      MLLM_RT_ASSERT(token < options_.vocab_size);
+      MLLM_RT_ASSERT(token >= 0 || (weight_dtype != kFloat32 && weight_dtype != kFloat16));
+
       switch (weight_dtype) {
         case kFloat32:
           std::memcpy(ous.coffsettedPtr<char>({b, (int)s, 0}),
-- 
2.43.0


From 0e513e8bba3317180693e09e055b287e80b71278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:19 +0000
Subject: [PATCH 093/132] fix: model file writer stored views as their whole
 storage, used the wrong name length, truncated long names and ignored write
 errors

---
 mllm/core/ParameterFile.cpp | 51 +++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 072adfa..0da57aa 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -62,6 +62,20 @@ ParameterFile::const_iterator ParameterFile::cbegin() const { return data_.begin
 
 ParameterFile::const_iterator ParameterFile::cend() const { return data_.end(); }
 
+namespace {
+
+// What is stored for a tensor are its own elements, which may be a part of a larger storage.
+Tensor paramData(const Tensor& tensor) { return tensor.isContiguous() ? tensor : Tensor(tensor).contiguous(); }
+
+size_t paramBytes(const Tensor& tensor) { return tensor.numel() / lanesOfType(tensor.dtype()) * bytesOfType(tensor.dtype()); }
+
+void closeWritten(std::ofstream& file, const std::string& file_path) {
+  file.close();
+  if (!file) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to write file: {}", file_path); }
+}
+
+}  // namespace
+
 //===----------------------------------------------------------------------===//
 // CPU ModelFileV1 ParameterFile
 //===----------------------------------------------------------------------===//
@@ -213,12 +227,11 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
 
   // Calculate total size of the descriptor section
   for (const auto& pair : *parameter_file) {
-    const auto& tensor = pair.second;
-    param_desc_total_size += sizeof(uint32_t);                        // name length
-    param_desc_total_size += tensor.impl()->storage()->name_.size();  // name string
-    param_desc_total_size += sizeof(uint64_t);                        // data length
-    param_desc_total_size += sizeof(uint64_t);                        // offset
-    param_desc_total_size += sizeof(int32_t);                         // data type
+    param_desc_total_size += sizeof(uint32_t);    // name length
+    param_desc_total_size += pair.first.size();   // name string
+    param_desc_total_size += sizeof(uint64_t);    // data length
+    param_desc_total_size += sizeof(uint64_t);    // offset
+    param_desc_total_size += sizeof(int32_t);     // data type
   }
 
   // Write header: parameter_desc_offset is now the SIZE of the descriptor section
@@ -241,7 +254,7 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
     out_file.write(name.c_str(), name_len);
 
     // Data length (bytes)
-    uint64_t data_len = tensor.bytes();
+    uint64_t data_len = paramBytes(tensor);
     out_file.write(reinterpret_cast<const char*>(&data_len), sizeof(data_len));
 
     // Offset (absolute from file start)
@@ -255,12 +268,12 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
 
   // Write tensor data
   for (const auto& pair : *parameter_file) {
-    const auto& tensor = pair.second;
-    size_t data_size = tensor.bytes();
+    const auto tensor = paramData(pair.second);
+    size_t data_size = paramBytes(tensor);
     out_file.write(reinterpret_cast<const char*>(tensor.ptr<uint8_t>()), data_size);
   }
 
-  out_file.close();
+  closeWritten(out_file, file_path);
 }
 
 //===----------------------------------------------------------------------===//
@@ -396,7 +409,12 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
 
   // First pass: write parameter descriptors
   std::vector<std::pair<std::string, Tensor>> tensors;
-  for (const auto& pair : *parameter_file) { tensors.emplace_back(pair.first, pair.second); }
+  for (const auto& pair : *parameter_file) {
+    // The descriptors have no room for more
+    MLLM_RT_ASSERT(pair.first.size() < MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH);
+    MLLM_RT_ASSERT(pair.second.shape().size() <= MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH);
+    tensors.emplace_back(pair.first, pair.second);
+  }
 
   // Write parameter descriptors
   for (const auto& [name, tensor] : tensors) {
@@ -409,7 +427,7 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
     param_desc.parameter_type = static_cast<uint32_t>(tensor.dtype());
 
     // Set parameter size
-    param_desc.parameter_size = tensor.bytes();
+    param_desc.parameter_size = paramBytes(tensor);
 
     // Set parameter offset
     param_desc.parameter_offset = current_data_offset;
@@ -427,15 +445,16 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
     out_file.write(reinterpret_cast<const char*>(&param_desc), sizeof(param_desc));
 
     // Update current data offset
-    current_data_offset += tensor.bytes();
+    current_data_offset += paramBytes(tensor);
   }
 
   // Second pass: write tensor data
-  for (const auto& [name, tensor] : tensors) {
-    size_t data_size = tensor.bytes();
+  for (const auto& [name, param] : tensors) {
+    const auto tensor = paramData(param);
+    size_t data_size = paramBytes(tensor);
     out_file.write(reinterpret_cast<const char*>(tensor.ptr<uint8_t>()), data_size);
   }
 
-  out_file.close();
+  closeWritten(out_file, file_path);
 }
 }  // namespace mllm
-- 
2.43.0


From 3e0b0141951d8ae224b538d288156231d78300d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:19 +0000
Subject: [PATCH 094/132] fix: truncated or broken model files were loaded

---
 mllm/core/ParameterFile.cpp | 44 ++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 0da57aa..34738d8 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -69,6 +69,24 @@ Tensor paramData(const Tensor& tensor) { return tensor.isContiguous() ? tensor :
 
 size_t paramBytes(const Tensor& tensor) { return tensor.numel() / lanesOfType(tensor.dtype()) * bytesOfType(tensor.dtype()); }
 
+// A file that was not written to its end is refused.
+void checkInFile(uint64_t offset, uint64_t size, uint64_t file_size, const std::string& file_path) {
+  if (offset > file_size || size > file_size - offset) {
+    MLLM_ERROR_EXIT(ExitCode::kIOError, "Model file {} is incomplete or broken", file_path);
+  }
+}
+
+void checkInFile(uint64_t offset, uint64_t num, uint64_t each, uint64_t file_size, const std::string& file_path) {
+  checkInFile(offset, num > file_size / each ? file_size + 1 : num * each, file_size, file_path);
+}
+
+uint64_t sizeOfFile(std::ifstream& file) {
+  file.seekg(0, std::ios::end);
+  uint64_t size = file.tellg();
+  file.seekg(0, std::ios::beg);
+  return size;
+}
+
 void closeWritten(std::ofstream& file, const std::string& file_path) {
   file.close();
   if (!file) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to write file: {}", file_path); }
@@ -91,11 +109,13 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
 
     // Process Header
     uint64_t parameter_desc_offset = -1;
+    checkInFile(0, sizeof(ModelFileV1Descriptor), mmap_file->size(), file_path);
     {
       auto* header = static_cast<ModelFileV1Descriptor*>(mmap_file->data());
       MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header->magic_number);
       parameter_desc_offset = header->parameter_desc_offset;
     }
+    checkInFile(sizeof(ModelFileV1Descriptor), parameter_desc_offset, mmap_file->size(), file_path);
     char* current_pos = static_cast<char*>(mmap_file->data()) + sizeof(ModelFileV1Descriptor);
     char* end_pos = current_pos + parameter_desc_offset;
 
@@ -103,9 +123,11 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     std::vector<ModelFileV1ParamsDescriptorHelper> tensor_meta_info;
     while (current_pos < end_pos) {
       ModelFileV1ParamsDescriptorHelper helper;
+      checkInFile(0, sizeof(ModelFileV1ParamsDescriptor), end_pos - current_pos, file_path);
 
       // Gen Name length
       helper.descriptor_.name_len = *reinterpret_cast<uint32_t*>(current_pos);
+      checkInFile(sizeof(ModelFileV1ParamsDescriptor), static_cast<uint32_t>(helper.descriptor_.name_len), end_pos - current_pos, file_path);
       current_pos += sizeof(uint32_t);
 
       // Get Name
@@ -137,6 +159,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       auto s = TensorStorage::create(shape, dtype, kCPU);
       auto t = TensorViewImpl::create(shape, s);
 
+      checkInFile(desc.descriptor_.offset, desc.descriptor_.data_len, mmap_file->size(), file_path);
       s->name_ = desc.name_;
       s->ptr_ = desc.ptr_;
       s->mem_type_ = kParamsMMAP;
@@ -149,12 +172,16 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     std::ifstream file(file_path, std::ios::binary);
     if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to open file for reading: {}", file_path); }
 
+    const uint64_t file_size = sizeOfFile(file);
+
     // Process Header
+    checkInFile(0, sizeof(ModelFileV1Descriptor), file_size, file_path);
     ModelFileV1Descriptor header{};
     file.read(reinterpret_cast<char*>(&header), sizeof(header));
     MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header.magic_number);
 
     uint64_t parameter_desc_offset = header.parameter_desc_offset;
+    checkInFile(sizeof(header), parameter_desc_offset, file_size, file_path);
     char* buffer = new char[parameter_desc_offset];
     file.read(buffer, parameter_desc_offset);
 
@@ -165,9 +192,11 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     std::vector<ModelFileV1ParamsDescriptorHelper> tensor_meta_info;
     while (current_pos < end_pos) {
       ModelFileV1ParamsDescriptorHelper helper;
+      checkInFile(0, sizeof(ModelFileV1ParamsDescriptor), end_pos - current_pos, file_path);
 
       // Gen Name length
       helper.descriptor_.name_len = *reinterpret_cast<uint32_t*>(current_pos);
+      checkInFile(sizeof(ModelFileV1ParamsDescriptor), static_cast<uint32_t>(helper.descriptor_.name_len), end_pos - current_pos, file_path);
       current_pos += sizeof(uint32_t);
 
       // Get Name
@@ -200,6 +229,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       TensorViewImpl::shape_t shape = {(int32_t)(desc.descriptor_.data_len / bytesOfType(dtype) * lanesOfType(dtype))};
 
       // Seek to data position and read
+      checkInFile(desc.descriptor_.offset, desc.descriptor_.data_len, file_size, file_path);
       file.seekg(desc.descriptor_.offset, std::ios::beg);
       auto s = TensorStorage::create(shape, dtype, kCPU);
       auto t = TensorViewImpl::create(shape, s);
@@ -208,7 +238,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       s->name_ = desc.name_;
       s->mem_type_ = kParamsNormal;
       p_file->push(desc.name_, Tensor(t).alloc());
-      file.read(static_cast<char*>(s->ptr_), desc.descriptor_.data_len);
+      file.read(static_cast<char*>(s->ptr_), s->size_);
     }
 
     file.close();
@@ -290,6 +320,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     p_file->setMappedFile(mmap_file);
 
     // Process Header
+    checkInFile(0, sizeof(ModelFileV2Descriptor), mmap_file->size(), file_path);
     {
       auto* header = static_cast<ModelFileV2Descriptor*>(mmap_file->data());
       MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_MAGIC_NUMBER, header->magic_number);
@@ -306,6 +337,8 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
           file_path);
     }
 
+    checkInFile(header->params_desc_offset, header->num_params, sizeof(ModelFileV2ParamsDescriptor), mmap_file->size(), file_path);
+
     // Loop through each parameter descriptor
     for (uint32_t i = 0; i < header->num_params; i++) {
       auto* param_desc =
@@ -334,6 +367,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
 
       // Check parameter size is right
       MLLM_RT_ASSERT(param_desc->parameter_size >= tensor.bytes());
+      checkInFile(param_desc->parameter_offset, param_desc->parameter_size, mmap_file->size(), file_path);
 
       p_file->push(name, tensor);
     }
@@ -342,6 +376,8 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     std::ifstream file(file_path, std::ios::binary);
     if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "Failed to open parameter file"); }
 
+    const uint64_t file_size = sizeOfFile(file);
+    checkInFile(0, sizeof(ModelFileV2Descriptor), file_size, file_path);
     ModelFileV2Descriptor header;
     file.read(reinterpret_cast<char*>(&header), sizeof(ModelFileV2Descriptor));
 
@@ -355,6 +391,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
           file_path);
     }
 
+    checkInFile(header.params_desc_offset, header.num_params, sizeof(ModelFileV2ParamsDescriptor), file_size, file_path);
     std::vector<ModelFileV2ParamsDescriptor> param_descriptors(header.num_params);
     file.seekg(header.params_desc_offset);
     file.read(reinterpret_cast<char*>(param_descriptors.data()), header.num_params * sizeof(ModelFileV2ParamsDescriptor));
@@ -375,10 +412,11 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
 
       s->name_ = name;
       auto tensor = Tensor(t).alloc();
+      MLLM_RT_ASSERT(param_desc.parameter_size >= tensor.bytes());
+      checkInFile(param_desc.parameter_offset, param_desc.parameter_size, file_size, file_path);
       file.seekg(param_desc.parameter_offset);
-      file.read(static_cast<char*>(s->ptr_), param_desc.parameter_size);
+      file.read(static_cast<char*>(s->ptr_), tensor.bytes());
       s->mem_type_ = kParamsNormal;
-      MLLM_RT_ASSERT(param_desc.parameter_size >= tensor.bytes());
       p_file->push(name, tensor);
     }
 
-- 
2.43.0


From db387ee6f9c71b606456a10f16027622c1284a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 095/132] fix: one tensor beyond the declared capacity
 overwrote the first tensor of a streamed model file

---
 pymllm/mobile/convertor/model_file_v2.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 976c044..4aea5b4 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -113,9 +113,7 @@ class ModelFileV2:
         self.v2_param_descriptor: List[ModelFileV2ParamsDescriptor] = []
         self.v2_file_header = ModelFileV2Descriptor(
             model_name="",
-            num_params=0
-            if update_mode == "Static"
-            else self.max_params_descriptor_buffer_num,
+            num_params=0,
         )
 
         # Open file
@@ -159,7 +157,7 @@ class ModelFileV2:
 
         tensor_size = len(tensor_data)
 
-        assert len(self.v2_param_descriptor) <= self.max_params_descriptor_buffer_num
+        assert len(self.v2_param_descriptor) < self.max_params_descriptor_buffer_num
         desc = ModelFileV2ParamsDescriptor(
             param_id=len(self.v2_param_descriptor),
             param_type=true_dtype,
-- 
2.43.0


From 4ef0b4c7298c09b909be987f942b073b3d66fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 096/132] fix: model file exporter cut off names that do not
 fit a descriptor

---
 pymllm/mobile/convertor/model_file_v2.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 4aea5b4..b697bfd 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -32,6 +32,15 @@ def _torch_tensor_bytes(tensor: "torch.Tensor") -> bytes:
     return t.view(torch.uint8).numpy().tobytes()
 
 
+def _check_describable(name: str, shape: List[int]):
+    # What a parameter descriptor has no room for must not be cut off silently.
+    name_bytes = name.encode("utf-8")
+    if len(name_bytes) >= MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH or b"\0" in name_bytes:
+        raise ValueError(f"Parameter name can not be stored in a model file: {name}")
+    if len(shape) > MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH:
+        raise ValueError(f"Parameter {name} has too many dimensions: {len(shape)}")
+
+
 class ModelFileV2Descriptor:
     SIZE = 532
 
@@ -155,6 +164,7 @@ class ModelFileV2:
                 "Unsupported tensor type. Only torch.Tensor and np.ndarray are supported."
             )
 
+        _check_describable(tensor_name, shape)
         tensor_size = len(tensor_data)
 
         assert len(self.v2_param_descriptor) < self.max_params_descriptor_buffer_num
@@ -226,6 +236,7 @@ class ModelFileV2:
                     "Unsupported tensor type. Only torch.Tensor, np.ndarray and Tensor are supported."
                 )
 
+            _check_describable(tensor_name, shape)
             tensor_size = len(tensor_data)
 
             desc = ModelFileV2ParamsDescriptor(
-- 
2.43.0


From a3604b9bfa724b1c255fceda2077e41e4a8845ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 097/132] fix: numpy arrays could not be exported to model
 files

---
 pymllm/mobile/convertor/model_file_v2.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index b697bfd..46f43a0 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -41,6 +41,11 @@ def _check_describable(name: str, shape: List[int]):
         raise ValueError(f"Parameter {name} has too many dimensions: {len(shape)}")
 
 
+def _numpy_tensor_bytes(tensor: "np.ndarray") -> bytes:
+    # Model files are little endian.
+    return tensor.astype(tensor.dtype.newbyteorder("<"), copy=False).tobytes()
+
+
 class ModelFileV2Descriptor:
     SIZE = 532
 
@@ -152,8 +157,8 @@ class ModelFileV2:
         elif MLLM_FIND_NUMPY_AVAILABLE and isinstance(tensor_obj, np.ndarray):
             # Numpy array
             shape = list(tensor_obj.shape)
-            tensor_data = tensor_obj.tobytes()
-            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype]
+            tensor_data = _numpy_tensor_bytes(tensor_obj)
+            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype.type]
         elif isinstance(tensor_obj, Tensor):
             # Mllm Tensor
             shape = list(tensor_obj.shape)
@@ -224,8 +229,8 @@ class ModelFileV2:
             elif MLLM_FIND_NUMPY_AVAILABLE and isinstance(tensor, np.ndarray):
                 # Numpy array
                 shape = list(tensor.shape)
-                tensor_data = tensor.tobytes()
-                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype]
+                tensor_data = _numpy_tensor_bytes(tensor)
+                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype.type]
             elif isinstance(tensor, Tensor):
                 # Mllm Tensor
                 shape = list(tensor.shape)
-- 
2.43.0


From 46cd19f04521aa60e245892c7a5317d54fd32ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 098/132] fix: bfloat16 parameters were read as one byte per
 element

---
 mllm/core/DataTypes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mllm/core/DataTypes.cpp b/mllm/core/DataTypes.cpp
index 99f5e85..87ab4d4 100644
--- a/mllm/core/DataTypes.cpp
+++ b/mllm/core/DataTypes.cpp
@@ -37,7 +37,7 @@ size_t lanesOfType(DataTypes dtype) {
     // CASE(kGGUF_IQ1_S) There is no such type right now.
     // CASE(kGGUF_IQ1_M) There is no such type right now.
     // CASE(kGGUF_IQ2_S) There is no such type right now.
-    // CASE(kBFloat16)  There is no such type right now.
+    case kBFloat16: return 1;
     CASE(kUInt8)
     CASE(kBool)
     CASE(kUInt16)
@@ -90,7 +90,7 @@ size_t bytesOfType(DataTypes dtype) {
     // CASE(kGGUF_IQ1_S) There is no such type right now.
     // CASE(kGGUF_IQ1_M) There is no such type right now.
     // CASE(kGGUF_IQ2_S) There is no such type right now.
-    // CASE(kBFloat16)  There is no such type right now.
+    case kBFloat16: return 2;
     CASE(kUInt8)
     CASE(kBool)
     CASE(kUInt16)
@@ -145,7 +145,7 @@ std::string nameOfType(DataTypes dtype) {
     // CASE(kGGUF_IQ1_S) There is no such type right now.
     // CASE(kGGUF_IQ1_M) There is no such type right now.
     // CASE(kGGUF_IQ2_S) There is no such type right now.
-    // CASE(kBFloat16)  There is no such type right now.
+    case kBFloat16: return "BFloat16";
     CASE(kUInt8)
     CASE(kUInt16)
     CASE(kUInt32)
-- 
2.43.0


From fd478df3f9f919da6c42e595ac41f70380ca35b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 099/132] fix: quantization counted parameters that no pass
 replaces as gone

---
 pymllm/mobile/quantize/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymllm/mobile/quantize/solver.py b/pymllm/mobile/quantize/solver.py
index c9669e4..9e435ac 100644
--- a/pymllm/mobile/quantize/solver.py
+++ b/pymllm/mobile/quantize/solver.py
@@ -63,6 +63,9 @@ class QuantizeSolver:
         for group_regex in param_groups.keys():
             sub_group = param_groups[group_regex]
             for payload_name, payload in sub_group[1].items():
+                # Parameters that no pass handles are written as they are
+                if payload.outputs_num == 0:
+                    continue
                 if param_groups[group_regex][0]["replace"]:
                     for k in payload.inputs_dict.keys():
                         aux.remove(k)
-- 
2.43.0


From f146b5978c9b20d7141b25a3c04bcd60275afd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 100/132] fix: model file exporter went on after a shape that
 does not fit a descriptor

---
 pymllm/mobile/convertor/model_file_v2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 46f43a0..387c2d3 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -37,8 +37,10 @@ def _check_describable(name: str, shape: List[int]):
     name_bytes = name.encode("utf-8")
     if len(name_bytes) >= MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH or b"\0" in name_bytes:
         raise ValueError(f"Parameter name can not be stored in a model file: {name}")
-    if len(shape) > MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH:
-        raise ValueError(f"Parameter {name} has too many dimensions: {len(shape)}")
+    if len(shape) > MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH or any(
+        d > 0x7FFFFFFF for d in shape
+    ):
+        raise ValueError(f"Parameter {name} has a shape that is too big: {shape}")
 
 
 def _numpy_tensor_bytes(tensor: "np.ndarray") -> bytes:
-- 
2.43.0


From c43d9ffc68bb53b91533678decd649cc8b1162fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:56 +0000
Subject: [PATCH 101/132] fix: strided tensors of one element could not be
 exported to model files

---
 pymllm/mobile/convertor/model_file_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 387c2d3..855d667 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -26,7 +26,7 @@ MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH = 16
 
 def _torch_tensor_bytes(tensor: "torch.Tensor") -> bytes:
     # Use uint8 view to preserve raw bytes for dtypes not supported by numpy.
-    t = tensor.detach().cpu().contiguous()
+    t = tensor.detach().cpu().clone(memory_format=torch.contiguous_format)
     if t.dim() == 0:
         t = t.reshape(1)
     return t.view(torch.uint8).numpy().tobytes()
-- 
2.43.0


From df6bd06d0698bcf6ffe3735bd3372b1e82eeae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:50 +0000
Subject: [PATCH 102/132] fix: lock only the cached prefix a prefill really
 reuses

A prompt that is (nearly) fully cached reuses all but its last two tokens,
yet the whole cached entry was locked.  The unused tail could not be evicted
and the prefill of prompts that fit in the pool failed.
---
 pymllm/orchestrator/model_runner_process.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 9caedf3..850e0db 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -732,10 +732,20 @@ class ModelRunnerProcess:
             # A 1-token prompt has nothing to keep from the hit.
             # The recurrent state of a hybrid model cannot be rolled back to
             # the shortened prefix, so there the hit is dropped altogether.
+            # Otherwise match again for the shortened prefix: only the entries
+            # that are really used may be locked, the rest must stay evictable.
             if prefix_len >= full_seq_len - 1:
-                prefix_len = max(full_seq_len - 2, 0) if gdn_pool is None else 0
-                if cached_indices is not None:
-                    cached_indices = cached_indices[:prefix_len]
+                if gdn_pool is None and full_seq_len > 2 and prefix_len > 0:
+                    match_result = cache.match_prefix(
+                        RadixKey(full_input_ids[: full_seq_len - 2])
+                    )
+                    prefix_len = match_result.prefix_len
+                    last_node = match_result.last_node
+                    cached_indices = match_result.indices
+                else:
+                    prefix_len = 0
+                    last_node = None
+                    cached_indices = None
 
             extend_len = full_seq_len - prefix_len
             actual_prefix_lens.append(prefix_len)
-- 
2.43.0


From e6bcbb12de1c46308c05bc64910284605a62ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:26 +0000
Subject: [PATCH 103/132] fix: causal masks with a sliding window or in half
 precision took the key length for the query length

---
 mllm/backends/cpu/ops/CausalMaskOp.cpp | 55 +++++++++++++-------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/mllm/backends/cpu/ops/CausalMaskOp.cpp b/mllm/backends/cpu/ops/CausalMaskOp.cpp
index 56fc0b7..45c41fd 100644
--- a/mllm/backends/cpu/ops/CausalMaskOp.cpp
+++ b/mllm/backends/cpu/ops/CausalMaskOp.cpp
@@ -18,7 +18,7 @@ namespace mllm::cpu {
 CPUCausalMaskOp::CPUCausalMaskOp(const aops::CausalMaskOpOptions& options) : aops::CausalMaskOp(options) {}
 
 void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto ins = inputs[0];
+  auto ins = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto ous = outputs[0];
 
   auto shape = ins.shape();
@@ -26,13 +26,12 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
   auto B = shape[0];
   auto H = shape[1];
   auto S = shape[2];
-  // For self-attention, the last two dimensions are sequence length (S) x sequence length (S).
-  // We assume D == S.
+  // The last two dimensions are the query length (S) x the key length (D). The queries are the last S positions of the D keys.
   auto D = shape[3];
 
   switch (ins.dtype()) {
     case kFloat32: {
-      if (S == 1) {  // When sequence length is 1, no masking is needed.
+      if (S == 1 && !options_.sliding_window) {  // When sequence length is 1, no masking is needed.
         for (int b = 0; b < B; ++b) {
           for (int h = 0; h < H; ++h) {
             auto* i_ptr = ins.offsettedPtr<float>({b, h, 0, 0});
@@ -54,7 +53,7 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             const __m256 mask_val = _mm256_set1_ps(-1e10f);
             for (size_t r = 0; r < S; ++r) {
               const size_t row_offset = r * D;
-              const size_t copy_count = D - S + r + 1;
+              const size_t copy_count = std::max(D - S + static_cast<int>(r) + 1, 0);
               const size_t fill_count = std::max(D - copy_count, (size_t)0);
 
               memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(float));
@@ -69,7 +68,7 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
             const float32x4_t mask_val = vdupq_n_f32(-1e10f);
             for (size_t r = 0; r < S; ++r) {
-              const size_t copy_count = D - S + r + 1;
+              const size_t copy_count = std::max(D - S + static_cast<int>(r) + 1, 0);
               const size_t fill_count = std::max(D - copy_count, (size_t)0);
 
               memcpy(o_ptr + r * D, i_ptr + r * D, copy_count * sizeof(float));
@@ -85,7 +84,7 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
 #else
             for (size_t r = 0; r < S; ++r) {
               const size_t row_offset = r * D;
-              const size_t copy_count = D - S + r + 1;
+              const size_t copy_count = std::max(D - S + static_cast<int>(r) + 1, 0);
               const size_t fill_count = std::max(D - copy_count, (size_t)0);
 
               memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(float));
@@ -98,17 +97,18 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             // Sliding window causal mask
             const int window_size = options_.window_size;
             for (int s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const int copy_start_idx = std::max(0, s - window_size + 1);
+              const size_t row_offset = s * D;
+              const int copy_end_idx = std::max(0, D - S + s + 1);
+              const int copy_start_idx = std::max(0, copy_end_idx - window_size);
 
               // 1. Mask prefix
               const size_t prefix_fill_count = copy_start_idx;
               // 2. Copy content
-              const size_t copy_count = s - copy_start_idx + 1;
+              const size_t copy_count = copy_end_idx - copy_start_idx;
               memcpy(o_ptr + row_offset + copy_start_idx, i_ptr + row_offset + copy_start_idx, copy_count * sizeof(float));
               // 3. Mask suffix
-              const size_t suffix_fill_start_idx = s + 1;
-              const size_t suffix_fill_count = S - suffix_fill_start_idx;
+              const size_t suffix_fill_start_idx = copy_end_idx;
+              const size_t suffix_fill_count = D - suffix_fill_start_idx;
 
 #if (defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)) && defined(__AVX2__)
               const __m256 mask_val = _mm256_set1_ps(-1e10f);
@@ -143,7 +143,7 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
       break;
     }
     case kFloat16: {
-      if (S == 1) {  // When sequence length is 1, no masking is needed.
+      if (S == 1 && !options_.sliding_window) {  // When sequence length is 1, no masking is needed.
         for (int b = 0; b < B; ++b) {
           for (int h = 0; h < H; ++h) {
             auto* i_ptr = ins.offsettedPtr<mllm_fp16_t>({b, h, 0, 0});
@@ -164,9 +164,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             const __m256 mask_ps = _mm256_set1_ps(-65500.f);
             const __m128i mask_val = _mm256_cvtps_ph(mask_ps, _MM_FROUND_TO_NEAREST_INT);
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = std::max(D - S + static_cast<int>(s) + 1, 0);
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -182,9 +182,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
             const float16x8_t mask_val = vdupq_n_f16(-65500.f);
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = std::max(D - S + static_cast<int>(s) + 1, 0);
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -197,9 +197,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             }
 #else
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = std::max(D - S + static_cast<int>(s) + 1, 0);
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -211,18 +211,19 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             // Sliding window causal mask
             const int window_size = options_.window_size;
             for (int s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const int copy_start_idx = std::max(0, s - window_size + 1);
+              const size_t row_offset = s * D;
+              const int copy_end_idx = std::max(0, D - S + s + 1);
+              const int copy_start_idx = std::max(0, copy_end_idx - window_size);
 
               // 1. Mask prefix
               const size_t prefix_fill_count = copy_start_idx;
               // 2. Copy content
-              const size_t copy_count = s - copy_start_idx + 1;
+              const size_t copy_count = copy_end_idx - copy_start_idx;
               memcpy(o_ptr + row_offset + copy_start_idx, i_ptr + row_offset + copy_start_idx,
                      copy_count * sizeof(mllm_fp16_t));
               // 3. Mask suffix
-              const size_t suffix_fill_start_idx = s + 1;
-              const size_t suffix_fill_count = S - suffix_fill_start_idx;
+              const size_t suffix_fill_start_idx = copy_end_idx;
+              const size_t suffix_fill_count = D - suffix_fill_start_idx;
 
 #if (defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)) && defined(__AVX2__) && defined(__F16C__)
               const __m256 mask_ps = _mm256_set1_ps(-65500.f);
-- 
2.43.0


From 3835c7ecd0c432c6b23d871c46069aeb88647d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:44 +0000
Subject: [PATCH 104/132] fix: resampling to a single sample took the first one
 instead of the centre

---
 mllm/backends/cpu/ops/InterpolateOp.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mllm/backends/cpu/ops/InterpolateOp.cpp b/mllm/backends/cpu/ops/InterpolateOp.cpp
index 66fdc3d..cc7e376 100644
--- a/mllm/backends/cpu/ops/InterpolateOp.cpp
+++ b/mllm/backends/cpu/ops/InterpolateOp.cpp
@@ -15,10 +15,8 @@ static void compute_scale_factors(const std::vector<int>& input_size, const std:
                                   std::vector<float>& scale_factors, bool align_corners) {
   scale_factors.resize(input_size.size());
   for (size_t i = 0; i < input_size.size(); ++i) {
-    if (output_size[i] == 1) {
-      scale_factors[i] = 0.0f;
-    } else if (align_corners) {
-      scale_factors[i] = static_cast<float>(input_size[i] - 1) / (output_size[i] - 1);
+    if (align_corners) {
+      scale_factors[i] = output_size[i] > 1 ? static_cast<float>(input_size[i] - 1) / (output_size[i] - 1) : 0.0f;
     } else {
       scale_factors[i] = static_cast<float>(input_size[i]) / output_size[i];
     }
@@ -342,11 +340,11 @@ static void trilinear_interpolate_3d(const T* input_data, T* output_data, const
 }
 
 void CPUInterpolateOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& X = inputs[0];
+  const auto X = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& Y = outputs[0];
 
   // Get shapes
-  const auto& input_shape = X.shape();
+  const auto input_shape = X.shape();
   const auto& output_shape = Y.shape();
   const int input_dim = static_cast<int>(input_shape.size());
 
-- 
2.43.0


From 5be651a467dc527ef6eabd88095d3af0896f9063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:44 +0000
Subject: [PATCH 105/132] fix: STFT used the first signal of a batch for all,
 its inverse kept the centre padding and lost the last sample

---
 mllm/backends/cpu/ops/STFTOp.cpp | 49 ++++++++++++++++----------------
 mllm/core/aops/ISTFTOp.cpp       |  3 ++
 mllm/core/aops/STFTOp.cpp        |  9 +++++-
 3 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/mllm/backends/cpu/ops/STFTOp.cpp b/mllm/backends/cpu/ops/STFTOp.cpp
index 38e34bb..17eefa5 100644
--- a/mllm/backends/cpu/ops/STFTOp.cpp
+++ b/mllm/backends/cpu/ops/STFTOp.cpp
@@ -276,10 +276,8 @@ static void fftBluesteinComplex(std::vector<std::complex<T>>& input, std::vector
   }
 }
 
-static void padSignal(const Tensor& input, std::vector<float>& padded_signal, int n_fft, bool center,
+static void padSignal(const float* input, int signal_length, std::vector<float>& padded_signal, int n_fft, bool center,
                       const std::string& pad_mode) {
-  auto input_shape = input.shape();
-  int signal_length = input_shape.size() == 1 ? input_shape[0] : input_shape[1];
 
   if (center) {
     int pad_length = n_fft / 2;
@@ -287,15 +285,15 @@ static void padSignal(const Tensor& input, std::vector<float>& padded_signal, in
     padded_signal.resize(padded_length);
 
     // 复制原始信号
-    for (int i = 0; i < signal_length; ++i) { padded_signal[pad_length + i] = input.ptr<float>()[i]; }
+    for (int i = 0; i < signal_length; ++i) { padded_signal[pad_length + i] = input[i]; }
 
     if (pad_mode == "reflect") {
       // reflect：mirror padding
       for (int i = 0; i < pad_length; ++i) {
         // left padding: reverse copy from the beginning, not including the boundary
-        padded_signal[i] = input.ptr<float>()[pad_length - i];  // 1...pad_length
+        padded_signal[i] = input[pad_length - i];  // 1...pad_length
         // right padding: reverse copy from the end, not including the boundary
-        padded_signal[pad_length + signal_length + i] = input.ptr<float>()[signal_length - 2 - i];
+        padded_signal[pad_length + signal_length + i] = input[signal_length - 2 - i];
       }
     } else {
       // constant：0 padding (default)
@@ -307,13 +305,13 @@ static void padSignal(const Tensor& input, std::vector<float>& padded_signal, in
   } else {
     // center=false，no padding
     padded_signal.resize(signal_length);
-    for (int i = 0; i < signal_length; ++i) { padded_signal[i] = input.ptr<float>()[i]; }
+    for (int i = 0; i < signal_length; ++i) { padded_signal[i] = input[i]; }
   }
 }
 
 void CPUSTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
-  auto& window = inputs[1];
+  auto input = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
+  auto window = inputs[1].isContiguous() ? inputs[1] : Tensor(inputs[1]).contiguous();
   auto& output = outputs[0];
 
   // Get input dimensions
@@ -334,13 +332,8 @@ void CPUSTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   std::string pad_mode = options_.pad_mode;
   bool return_complex = options_.return_complex;
 
-  // 对输入信号进行填充处理
   std::vector<float> padded_signal;
-  padSignal(input, padded_signal, n_fft, center, pad_mode);
-  int padded_length = static_cast<int>(padded_signal.size());
-
-  // Recalculate signal length after padding
-  signal_length = padded_length;
+  const int input_length = signal_length;
 
   // Temporary buffers
   std::vector<float> windowed_input(n_fft);
@@ -348,6 +341,11 @@ void CPUSTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 
   // Process each batch
   for (int b = 0; b < batch_size; ++b) {
+    // 对输入信号进行填充处理
+    padSignal(input.ptr<float>() + static_cast<size_t>(b) * input_length, input_length, padded_signal, n_fft, center, pad_mode);
+    // Recalculate signal length after padding
+    signal_length = static_cast<int>(padded_signal.size());
+
     // Process each frame
     for (int f = 0; f < n_frames; ++f) {
       int start_idx = f * hop_length;
@@ -385,8 +383,8 @@ void CPUSTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 }
 
 void CPUISTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
-  auto& window = inputs[1];
+  auto input = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
+  auto window = inputs[1].isContiguous() ? inputs[1] : Tensor(inputs[1]).contiguous();
   auto& output = outputs[0];
 
   // Shapes
@@ -488,13 +486,15 @@ void CPUISTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
       // 4. 将裁剪后的有效数据从临时缓冲拷贝到最终的 output tensor
       // 源地址：temp_output 的 padding 之后
       // 目标地址：output_ptr 的开头
-      // 拷贝长度：final_length
-      std::memcpy(output_ptr, temp_output.data() + padding, final_length * sizeof(float));
+      // 拷贝长度：signal_length
+      std::memcpy(output_ptr, temp_output.data() + padding, signal_length * sizeof(float));
 
     } else {
       // 标准 'center' 或其他 padding 逻辑 (与您之前的原始逻辑类似)
-      std::vector<float> window_envelope(signal_length, 0.0f);
-      std::memset(output_ptr, 0, signal_length * sizeof(float));
+      const int full_length = (n_frames - 1) * hop_length + n_fft;
+      const int trim = center ? n_fft / 2 : 0;  // the padding STFT adds in front of a centered signal
+      std::vector<float> full_output(full_length, 0.0f);
+      std::vector<float> window_envelope(full_length, 0.0f);
 
       for (int f = 0; f < n_frames; ++f) {
         // load complex freq bins
@@ -534,15 +534,16 @@ void CPUISTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
         int start_idx = f * hop_length;
         for (int i = 0; i < win_length; ++i) {
           int out_idx = start_idx + i;
-          if (out_idx < signal_length) {
-            output_ptr[out_idx] += ifft_output[i] * window_ptr[i];
+          if (out_idx < full_length) {
+            full_output[out_idx] += ifft_output[i] * window_ptr[i];
             window_envelope[out_idx] += window_ptr[i] * window_ptr[i];
           }
         }
       }
 
       for (int i = 0; i < signal_length; ++i) {
-        if (window_envelope[i] > 1e-10f) { output_ptr[i] /= window_envelope[i]; }
+        output_ptr[i] = full_output[trim + i];
+        if (window_envelope[trim + i] > 1e-10f) { output_ptr[i] /= window_envelope[trim + i]; }
       }
     }
   }
diff --git a/mllm/core/aops/ISTFTOp.cpp b/mllm/core/aops/ISTFTOp.cpp
index 399f5d2..8b00426 100644
--- a/mllm/core/aops/ISTFTOp.cpp
+++ b/mllm/core/aops/ISTFTOp.cpp
@@ -60,6 +60,8 @@ void ISTFTOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
   int hop_length = options_.hop_length;
   bool center = options_.center;
 
+  MLLM_RT_ASSERT(hop_length > 0);
+
   // Calculate output dimensions
   int signal_length = (n_frames - 1) * hop_length + n_fft;
   options_.length = signal_length;
@@ -67,6 +69,7 @@ void ISTFTOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
     signal_length = signal_length - 2 * (n_fft / 2);
   } else if (options_.pad_mode == "same") {
     // center==false，remove padding of (win_length - hop_length) // 2
+    MLLM_RT_ASSERT(options_.win_length >= hop_length);
     int padding = (options_.win_length - hop_length) / 2;
     signal_length -= 2 * padding;
   }
diff --git a/mllm/core/aops/STFTOp.cpp b/mllm/core/aops/STFTOp.cpp
index be93df7..ddedbf7 100644
--- a/mllm/core/aops/STFTOp.cpp
+++ b/mllm/core/aops/STFTOp.cpp
@@ -59,8 +59,15 @@ void STFTOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& out
   int win_length = options_.win_length;
   bool center = options_.center;
 
+  MLLM_RT_ASSERT(hop_length > 0);
+
   // If center=true, pad signal with n_fft/2 on both sides
-  if (center) { signal_length += 2 * (n_fft / 2); }
+  if (center) {
+    // Reflecting needs more samples than are padded
+    if (options_.pad_mode == "reflect") { MLLM_RT_ASSERT(signal_length > n_fft / 2); }
+    signal_length += 2 * (n_fft / 2);
+  }
+  MLLM_RT_ASSERT(signal_length >= win_length);
 
   // Calculate output dimensions
   int n_frames = 1 + (signal_length - win_length) / hop_length;
-- 
2.43.0


From 15a5b3471bbae26149371bd7844fdf33b180504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 106/132] fix: rotary embedding read tables outside their
 bounds and ignored the strides within a row

---
 mllm/backends/cpu/ops/RoPEOp.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/ops/RoPEOp.cpp b/mllm/backends/cpu/ops/RoPEOp.cpp
index b9f79c0..418a05c 100644
--- a/mllm/backends/cpu/ops/RoPEOp.cpp
+++ b/mllm/backends/cpu/ops/RoPEOp.cpp
@@ -508,8 +508,23 @@ void CPURoPEOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   MLLM_RT_ASSERT_EQ(activation.shape().size(), 4);
   auto out = outputs[0];
 
+  // Rows are read and written as dense memory
+  auto dense = [](const Tensor& t) { return t.stride().back() == 1 ? t : Tensor(t).contiguous(); };
+  std::vector<Tensor> ins = {dense(activation), dense(sin), dense(cos)};
+  MLLM_RT_ASSERT(out.stride().back() == 1);
+
+  // The tables must cover all positions and all rotated pairs
+  const auto& shape = activation.shape();
+  const int32_t S = options_.input_type == aops::RoPEOpOptionsInputType::kBHSD ? shape[2] : shape[1];
+  const int32_t half = (options_.partial_dim == -1 ? shape[3] : options_.partial_dim) / 2;
+  MLLM_RT_ASSERT(half >= 0 && half * 2 <= shape[3]);
+  for (const auto& t : {sin, cos}) {
+    MLLM_RT_ASSERT_EQ(t.shape().size(), 3);
+    MLLM_RT_ASSERT(t.shape()[0] >= shape[0] && t.shape()[1] >= S && t.shape()[2] >= half);
+  }
+
   auto impl = RoPEOpImpl();
-  impl.forward(inputs, outputs, sin, cos, options_.partial_dim, options_.input_type);
+  impl.forward(ins, outputs, ins[1], ins[2], options_.partial_dim, options_.input_type);
 }
 
 }  // namespace mllm::cpu
-- 
2.43.0


From 06acb4f792f2fe9596e8cf1e1675d2cddf2fcdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:12 +0000
Subject: [PATCH 107/132] fix: STFT formed a reference to an output that does
 not exist yet

---
 mllm/core/aops/ISTFTOp.cpp | 1 -
 mllm/core/aops/STFTOp.cpp  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/mllm/core/aops/ISTFTOp.cpp b/mllm/core/aops/ISTFTOp.cpp
index 8b00426..c33fe44 100644
--- a/mllm/core/aops/ISTFTOp.cpp
+++ b/mllm/core/aops/ISTFTOp.cpp
@@ -47,7 +47,6 @@ void ISTFTOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
   }
 
   auto& input = inputs[0];
-  auto& output = outputs[0];
 
   // Get input dimensions
   auto input_shape = input.shape();
diff --git a/mllm/core/aops/STFTOp.cpp b/mllm/core/aops/STFTOp.cpp
index ddedbf7..3bc75e9 100644
--- a/mllm/core/aops/STFTOp.cpp
+++ b/mllm/core/aops/STFTOp.cpp
@@ -46,7 +46,6 @@ void STFTOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& out
   }
 
   auto& input = inputs[0];
-  auto& output = outputs[0];
 
   // Get input dimensions
   auto input_shape = input.shape();
-- 
2.43.0


From b238d22b970788c1b5bde45dc0f29958b9abc766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:33 +0000
Subject: [PATCH 108/132] fix: half-precision numbers were converted by value
 instead of by bits on x86, so that scales of quantised blocks were misread

---
 .../kernels/common/ggml/quantize/quantize.hpp | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp
index e318451..10031f8 100644
--- a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp
+++ b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp
@@ -105,15 +105,27 @@ inline static float lookup_fp16_to_fp32(uint16_t f) {
 
 #else
 namespace mllm::cpu {
-#define MLLM_COMPUTE_FP16_TO_FP32(x) _cvtsh_ss(x)
-#define MLLM_COMPUTE_FP32_TO_FP16(x) _cvtss_sh(x, 0)
+// mllm_fp16_t is a class here: its bits have to be converted, not its value.
+inline static float mllm_compute_fp16_to_fp32(mllm_fp16_t h) {
+  uint16_t bits;
+  memcpy(&bits, &h, sizeof(bits));
+  return _cvtsh_ss(bits);
+}
+inline static mllm_fp16_t mllm_compute_fp32_to_fp16(float f) {
+  const uint16_t bits = _cvtss_sh(f, 0);
+  mllm_fp16_t h;
+  memcpy(&h, &bits, sizeof(h));
+  return h;
+}
+#define MLLM_COMPUTE_FP16_TO_FP32(x) mllm_compute_fp16_to_fp32(x)
+#define MLLM_COMPUTE_FP32_TO_FP16(x) mllm_compute_fp32_to_fp16(x)
 
 static float table_f32_f16[1 << 16];
 static bool table_f32_f16_init = false;
 
-inline static float lookup_fp16_to_fp32(uint16_t f) {
+inline static float lookup_fp16_to_fp32(mllm_fp16_t f) {
   if (!table_f32_f16_init) {
-    uint16_t ii;
+    mllm_fp16_t ii;
     for (int i = 0; i < (1 << 16); ++i) {
       uint16_t ui = i;
       memcpy(&ii, &ui, sizeof(ii));
-- 
2.43.0


From 1b1d374ce3c4e8ff107361416bbe417717d703f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 109/132] fix: quantising rows to 8-bit codes wrote one element
 past the row and did not saturate

---
 .../backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
index 5f342de..f72bfcc 100644
--- a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
@@ -264,8 +264,8 @@ void quantize_row_q8_K(const float* __restrict x, void* __restrict y, int k) {
 void quantize_row_i8_reference(const float* __restrict x, int8_t* __restrict y, int k, float scale) {
   const float id = 1.0f / scale;
   for (int i = 0; i < k; i++) {
-    const float x0 = x[k] * id;
-    y[k] = roundf(x0);
+    const float x0 = roundf(x[i] * id);
+    y[i] = x0 < -128.0f ? -128 : x0 > 127.0f ? 127 : (int8_t)x0;
   }
 }
 void quantize_row_i8(const float* __restrict x, void* __restrict vy, int k, float scale) {
-- 
2.43.0


From 16505cf7d8d933f351e94f5e2ddc47bcbd7def5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 110/132] fix: dequantising 8-bit codes to half precision wrote
 through an uninitialised pointer

---
 .../backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
index f72bfcc..0b2f11c 100644
--- a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
@@ -444,7 +444,7 @@ void dequantize_row_i8(const void* __restrict vx, float* __restrict y, int k, fl
 
 void dequantize_row_i8_to_fp16(const void* __restrict vx, void* __restrict vy, int k, float scale) {
   const int8_t* __restrict x = (int8_t*)vx;
-  mllm_fp16_t* __restrict y = (mllm_fp16_t*)y;
+  mllm_fp16_t* __restrict y = (mllm_fp16_t*)vy;
 
   int i;
   // Load the scale factor into a NEON register and convert it to mllm_fp16_t
@@ -483,7 +483,7 @@ void dequantize_row_i8_to_fp16(const void* __restrict vx, void* __restrict vy, i
 
 void dequantize_row_i8_to_fp16(const void* __restrict vx, void* __restrict vy, int k, float scale) {
   const int8_t* __restrict x = (int8_t*)vx;
-  mllm_fp16_t* __restrict y = (mllm_fp16_t*)y;
+  mllm_fp16_t* __restrict y = (mllm_fp16_t*)vy;
 
   for (int i = 0; i < k; i++) { y[i] = MLLM_FP32_TO_FP16(x[i] * scale); }
 }
-- 
2.43.0


From da866ca3839d345ff20b3c732502beaa5e9c066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 111/132] fix: q8_K codes of -128 kept their sign in IQ2_XXS
 dot products

---
 mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
index 0b2f11c..fa038b5 100644
--- a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
@@ -232,7 +232,8 @@ void quantize_row_q8_K_reference(const float* __restrict x, block_q8_K* __restri
       x += QK_K;
       continue;
     }
-    const float iscale = -128.F / max;
+    // -128 must not occur: the vector kernels of the formats with separate signs negate the codes in 8 bits
+    const float iscale = -127.F / max;
     for (int j = 0; j < QK_K; ++j) {
       int v = nearest_int(iscale * x[j]);
       y[i].qs[j] = MIN(127, v);
-- 
2.43.0


From b46086c97fbc3647f765968dd9159984ca86b326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 112/132] fix: products with half-precision weights called a
 conversion that did not exist

---
 mllm/backends/cpu/kernels/common/ggml/vec_dot_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/vec_dot_type.cpp b/mllm/backends/cpu/kernels/common/ggml/vec_dot_type.cpp
index 8341f7f..6b04e4e 100644
--- a/mllm/backends/cpu/kernels/common/ggml/vec_dot_type.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/vec_dot_type.cpp
@@ -221,7 +221,7 @@ const size_t TypeTraits<MLLM_TYPE_F16>::size = sizeof(mllm::mllm_fp16_t);
 const int TypeTraits<MLLM_TYPE_F16>::blck_size = 1;
 const int TypeTraits<MLLM_TYPE_F16>::blck_size_interleave = 1;
 const mllm_to_float_func TypeTraits<MLLM_TYPE_F16>::to_float = nullptr;
-const mllm_from_float_func TypeTraits<MLLM_TYPE_F16>::from_float = nullptr;
+const mllm_from_float_func TypeTraits<MLLM_TYPE_F16>::from_float = (mllm_from_float_func)mllm_fp32_to_fp16_row;
 const mllm_from_float_to_mat_func TypeTraits<MLLM_TYPE_F16>::from_float_to_mat = nullptr;
 const mllm_vec_dot_func TypeTraits<MLLM_TYPE_F16>::vec_dot = (mllm_vec_dot_func)vec_dot_fp16;
 const DataTypes TypeTraits<MLLM_TYPE_F16>::vec_dot_type = MLLM_TYPE_F16;
-- 
2.43.0


From 6786dce7d12863a3500ffe070056f3149d05e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 113/132] fix: batched products that fall back to dot products
 used the first right-hand matrix for every batch

---
 mllm/backends/cpu/kernels/common/ggml/matmul.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/matmul.cpp b/mllm/backends/cpu/kernels/common/ggml/matmul.cpp
index 95092d9..3c12803 100644
--- a/mllm/backends/cpu/kernels/common/ggml/matmul.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/matmul.cpp
@@ -329,7 +329,8 @@ llamafile_fallback:;
         // Calculate src1 and src0 offsets based on transpose flags
         size_t src0_offset =
             (batch_count > 1 ? b * src0_stride[src0_stride.size() - 3] : 0) + s_0 * src0_stride[src0_stride.size() - 2] + d_0;
-        size_t src1_offset = s_1 * src1_stride[src1_stride.size() - 2] + d_1;
+        size_t src1_offset = (batch_count > 1 && src1_stride.size() > 2 ? b * src1_stride[src1_stride.size() - 3] : 0)
+                             + s_1 * src1_stride[src1_stride.size() - 2] + d_1;
 
         const char* src0_ptr =
             reinterpret_cast<const char*>(src0->ptr<mllm_byte_t>() + src0_offset * src0_type_size / src0_blck_size);
-- 
2.43.0


From 7aecc501451ce02474e79469b3be2a966000e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:07 +0000
Subject: [PATCH 114/132] fix: normalising a tensor overwrote the caller's
 tensor and misread tensors that are not contiguous

---
 mllm/preprocessor/visual/ImageTransform.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mllm/preprocessor/visual/ImageTransform.cpp b/mllm/preprocessor/visual/ImageTransform.cpp
index d71a007..f0a9813 100644
--- a/mllm/preprocessor/visual/ImageTransform.cpp
+++ b/mllm/preprocessor/visual/ImageTransform.cpp
@@ -87,7 +87,7 @@ Normalize::Normalize(const std::vector<float>& mean, const std::vector<float>& s
 }
 
 Tensor Normalize::apply(const Tensor& input) const {
-  const Tensor& src = input;
+  Tensor src = input;
   // Expect src in CHW layout
   MLLM_RT_ASSERT(src.rank() == 3);
   const int c = src.size(0);
@@ -96,8 +96,9 @@ Tensor Normalize::apply(const Tensor& input) const {
   MLLM_RT_ASSERT_EQ(static_cast<int>(mean_.size()), c);
   MLLM_RT_ASSERT_EQ(static_cast<int>(std_.size()), c);
 
-  // Asuming Work on a contiguous clone to simplify indexing
-  float* ptr = input.ptr<float>();
+  // Work on a contiguous clone: simplifies indexing and leaves the input as it is
+  Tensor out = src.contiguous().clone();
+  float* ptr = out.ptr<float>();
   const size_t plane = static_cast<size_t>(h) * static_cast<size_t>(w);
 
   for (int ch = 0; ch < c; ++ch) {
@@ -108,7 +109,7 @@ Tensor Normalize::apply(const Tensor& input) const {
     for (size_t i = 0; i < plane; ++i) { base[i] = (base[i] - m) / s; }
   }
 
-  return input;
+  return out;
 }
 
 // ========================= BasicImageTransform =========================
-- 
2.43.0


From 67a46f652f0113e3f6b9eb9b0ee10429c9343448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:07 +0000
Subject: [PATCH 115/132] fix: reading a WAV file with an odd-sized chunk
 before the samples never ended

---
 third_party/wenet_audio/wav.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_party/wenet_audio/wav.h b/third_party/wenet_audio/wav.h
index 7686da8..ced4a82 100644
--- a/third_party/wenet_audio/wav.h
+++ b/third_party/wenet_audio/wav.h
@@ -77,7 +77,8 @@ class WavReader {
     // "list" subchunk.
     while (0 != strncmp(header.data, "data", 4)) {
       // We will just ignore the data in these chunks.
-      fseek(fp, header.data_size, SEEK_CUR);
+      // (chunks are padded to an even number of bytes)
+      fseek(fp, (long)header.data_size + (header.data_size & 1), SEEK_CUR);
       // read next subchunk
       IGNORE(fread(header.data, 8, sizeof(char), fp));
     }
-- 
2.43.0


From 451d0a3e61d56a15c5d970cf0f983bdec4a4bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:07 +0000
Subject: [PATCH 116/132] fix: mel bands without any FFT bin read in front of
 their weights

---
 third_party/wenet_audio/fbank.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_party/wenet_audio/fbank.h b/third_party/wenet_audio/fbank.h
index 77248c4..739cddc 100644
--- a/third_party/wenet_audio/fbank.h
+++ b/third_party/wenet_audio/fbank.h
@@ -80,7 +80,8 @@ class Fbank {
       }
       //CHECK(first_index != -1 && last_index >= first_index);
       bins_[bin].first = first_index;
-      int size = last_index + 1 - first_index;
+      // a band narrower than the distance of two fft bins may contain none
+      int size = first_index == -1 ? 0 : last_index + 1 - first_index;
       bins_[bin].second.resize(size);
       for (int i = 0; i < size; ++i) {
         bins_[bin].second[i] = this_bin[first_index + i];
-- 
2.43.0


From 2e529b69baa6cae3f304a4122eb1431f45a3943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:10 +0000
Subject: [PATCH 117/132] fix: clip positions overflowed for audio longer than
 ten seconds whose length is not a round number

---
 mllm/preprocessor/audio/Audio.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/mllm/preprocessor/audio/Audio.cpp b/mllm/preprocessor/audio/Audio.cpp
index d92432f..8b36f0b 100644
--- a/mllm/preprocessor/audio/Audio.cpp
+++ b/mllm/preprocessor/audio/Audio.cpp
@@ -3,6 +3,7 @@
 //
 
 #include "Audio.hpp"
+#include <cstdint>
 #include <iomanip>
 #include <numeric>
 #include <utility>
@@ -17,21 +18,21 @@
 
 class Fraction {
  public:
-  int numerator;
-  int denominator;
+  int64_t numerator;
+  int64_t denominator;
 
   // Constructor accepting a single int argument
-  explicit Fraction(int num) : numerator(num), denominator(1) {}
+  explicit Fraction(int64_t num) : numerator(num), denominator(1) {}
 
-  Fraction(int num, int den) : numerator(num), denominator(den) {
+  Fraction(int64_t num, int64_t den) : numerator(num), denominator(den) {
     if (denominator == 0) { throw std::invalid_argument("Denominator cannot be zero."); }
     simplify();
   }
 
   // Calculate the greatest common divisor
-  int gcd(int a, int b) {
+  int64_t gcd(int64_t a, int64_t b) {
     while (b != 0) {
-      int temp = b;
+      int64_t temp = b;
       b = a % b;
       a = temp;
     }
@@ -44,7 +45,7 @@ class Fraction {
       denominator = 1;
       return;
     }
-    int gcd_value = gcd(std::abs(numerator), std::abs(denominator));
+    int64_t gcd_value = gcd(std::abs(numerator), std::abs(denominator));
     numerator /= gcd_value;
     denominator /= gcd_value;
     if (denominator < 0) {
@@ -55,30 +56,30 @@ class Fraction {
 
   // Addition operation
   Fraction operator+(const Fraction& other) {
-    int num = numerator * other.denominator + other.numerator * denominator;
-    int den = denominator * other.denominator;
+    int64_t num = numerator * other.denominator + other.numerator * denominator;
+    int64_t den = denominator * other.denominator;
     return {num, den};
   }
 
   // Subtraction operation
   Fraction operator-(const Fraction& other) {
-    int num = numerator * other.denominator - other.numerator * denominator;
-    int den = denominator * other.denominator;
+    int64_t num = numerator * other.denominator - other.numerator * denominator;
+    int64_t den = denominator * other.denominator;
     return {num, den};
   }
 
   // Multiplication operation
   Fraction operator*(const Fraction& other) {
-    int num = numerator * other.numerator;
-    int den = denominator * other.denominator;
+    int64_t num = numerator * other.numerator;
+    int64_t den = denominator * other.denominator;
     return {num, den};
   }
 
   // Division operation
   Fraction operator/(const Fraction& other) {
     if (other.numerator == 0) { throw std::invalid_argument("Cannot divide by zero."); }
-    int num = numerator * other.denominator;
-    int den = denominator * other.numerator;
+    int64_t num = numerator * other.denominator;
+    int64_t den = denominator * other.numerator;
     return {num, den};
   }
 
-- 
2.43.0


From e291b55bed0fb1bc0ccf2f55dbbc33f4f726ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:10 +0000
Subject: [PATCH 118/132] fix: clips of audio shorter than a clip read beyond
 its end

---
 mllm/preprocessor/audio/Audio.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mllm/preprocessor/audio/Audio.cpp b/mllm/preprocessor/audio/Audio.cpp
index 8b36f0b..5b3124f 100644
--- a/mllm/preprocessor/audio/Audio.cpp
+++ b/mllm/preprocessor/audio/Audio.cpp
@@ -118,15 +118,13 @@ class Fraction {
 
 namespace MLLM_ANONYMOUS_NAMESPACE {
 
-float* waveClip(const float* data_, int start, int end, int channel) {
+std::vector<float> waveClip(const float* data_, int start, int end, int channel) {
   std::vector<float> even_elements;
 
   for (int i = start; i < end; ++i) {
     if (i % channel == 0) { even_elements.push_back(data_[i]); }
   }
-  auto data_new = new float[(end - start) / channel];
-  std::copy(even_elements.begin(), even_elements.end(), data_new);
-  return data_new;
+  return even_elements;
 }
 std::vector<std::vector<float>> readFeats(const std::shared_ptr<wenet::FeaturePipeline>& feature_pipeline,
                                           const int num_frames_, const int feature_dim_) {
@@ -464,16 +462,16 @@ std::vector<std::vector<std::vector<std::vector<float>>>> processWAV(const std::
         Fraction(clip_duration), Fraction(clips_per_video), Fraction(waveform_size) / Fraction(resample_rate), resample_rate);
     std::vector<std::vector<std::vector<float>>> all_clips;
     for (auto clip_timepoint : clip_timepoints) {
-      const int clip_start = clip_timepoint.first * wav_reader.num_channel();
-      const int clip_end = clip_timepoint.second * wav_reader.num_channel();
-      const float* datac;
+      // A clip ends where the audio ends
+      const int clip_start = std::min(clip_timepoint.first, waveform_size) * wav_reader.num_channel();
+      const int clip_end = std::min(clip_timepoint.second, waveform_size) * wav_reader.num_channel();
+      std::vector<float> datac;
       if (origin_sample_rate == resample_rate) {
         datac = waveClip(wav_reader.data(), clip_start, clip_end, wav_reader.num_channel());
       } else {
         datac = waveClip(resampled.data(), clip_start, clip_end, wav_reader.num_channel());
       }
-      const int datac_num_sample = (clip_end - clip_start) / wav_reader.num_channel();
-      feature_pipeline->AcceptWaveform(std::vector<float>(datac, datac + datac_num_sample));
+      feature_pipeline->AcceptWaveform(datac);
       const int num_frames_ = 204;
       const int feature_dim_ = 128;
       const auto chunk_feats = readFeats(feature_pipeline, num_frames_, feature_dim_);
-- 
2.43.0


From a38edc1be8bf9c421fe2e45f7794d5be24422812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:10 +0000
Subject: [PATCH 119/132] fix: a WAV file that cannot be opened was processed
 as whatever the memory held

---
 mllm/preprocessor/audio/Audio.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mllm/preprocessor/audio/Audio.cpp b/mllm/preprocessor/audio/Audio.cpp
index 5b3124f..c76b251 100644
--- a/mllm/preprocessor/audio/Audio.cpp
+++ b/mllm/preprocessor/audio/Audio.cpp
@@ -446,7 +446,8 @@ std::vector<std::vector<std::vector<std::vector<float>>>> processWAV(const std::
   Fraction clip_duration(2);
   Fraction clips_per_video(3);
   for (auto& wav : waves) {
-    wenet::WavReader wav_reader(wav);
+    wenet::WavReader wav_reader;
+    if (!wav_reader.Open(wav)) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Can't read audio: {}", wav); }
     wav_reader.rescale();
     auto wavdata = wav_reader.data();
     auto wavdata_sample = wav_reader.num_sample();
@@ -487,7 +488,8 @@ std::vector<std::vector<std::vector<std::vector<float>>>> processWAV(const std::
 
 std::vector<float> readWAV(const std::string& file_path, int resample_rate) {
   // Read WAV file using wenet library
-  wenet::WavReader wav_reader(file_path);
+  wenet::WavReader wav_reader;
+  if (!wav_reader.Open(file_path)) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Can't read audio: {}", file_path); }
   wav_reader.rescale();
 
   // Get audio properties
-- 
2.43.0


From cb4075af178d9d855fb4da9581d8b7b3efc96688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:51 +0000
Subject: [PATCH 120/132] fix: several groups of processes could not be
 created, because each process only creates its own

---
 pymllm/orchestrator/group_coordinator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/group_coordinator.py b/pymllm/orchestrator/group_coordinator.py
index 2fec307..549d02a 100644
--- a/pymllm/orchestrator/group_coordinator.py
+++ b/pymllm/orchestrator/group_coordinator.py
@@ -32,7 +32,11 @@ class GroupCoordinator:
         
         # Create process group
         if dist.is_initialized() and self.world_size > 1:
-            self.device_group = dist.new_group(ranks, backend=backend)
+            # A process only creates the groups it belongs to, so the creation
+            # must not wait for processes that are not members.
+            self.device_group = dist.new_group(
+                ranks, backend=backend, use_local_synchronization=True
+            )
         else:
             self.device_group = None
     
-- 
2.43.0


From 34654f3d8b07087b8b82084d952cb4eca98323e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:51 +0000
Subject: [PATCH 121/132] fix: pipeline groups coincided with tensor-parallel
 groups

---
 pymllm/orchestrator/parallel_state.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/parallel_state.py b/pymllm/orchestrator/parallel_state.py
index 9fb2087..390314a 100644
--- a/pymllm/orchestrator/parallel_state.py
+++ b/pymllm/orchestrator/parallel_state.py
@@ -98,8 +98,17 @@ def initialize_model_parallel(
     if pipeline_model_parallel_size > 1:
         num_pp_groups = world_size // pipeline_model_parallel_size
         for i in range(num_pp_groups):
-            start = i * pipeline_model_parallel_size
-            ranks = list(range(start, start + pipeline_model_parallel_size))
+            # TP ranks are contiguous, so the stages of a pipeline are
+            # tensor_model_parallel_size ranks apart.
+            replica, tp_rank = divmod(i, tensor_model_parallel_size)
+            start = (
+                replica * tensor_model_parallel_size * pipeline_model_parallel_size
+                + tp_rank
+            )
+            ranks = [
+                start + stage * tensor_model_parallel_size
+                for stage in range(pipeline_model_parallel_size)
+            ]
             if world_rank in ranks:
                 _PP_GROUP = GroupCoordinator(
                     ranks=ranks,
-- 
2.43.0


From 8ed284438ee07b621777dbacab1a1f4b17e3667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:51 +0000
Subject: [PATCH 122/132] fix: merged projections accepted a shard of another
 size and wrote over its neighbours

---
 pymllm/layers/linear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymllm/layers/linear.py b/pymllm/layers/linear.py
index 6e41061..9ef7426 100644
--- a/pymllm/layers/linear.py
+++ b/pymllm/layers/linear.py
@@ -397,6 +397,12 @@ class MergedLinear(MllmBaseLayer):
 
         logical_total = sum(self.output_partition_sizes)
         if total_size == logical_total:
+            partition_size = self.output_partition_sizes[loaded_shard_id]
+            if shard_size != partition_size:
+                raise AssertionError(
+                    f"Shard {loaded_shard_id} has {shard_size} rows, "
+                    f"expected {partition_size}"
+                )
             offset = sum(self.output_partition_sizes[:loaded_shard_id])
         elif total_size * self.output_partition_sizes[loaded_shard_id] == (
             logical_total * shard_size
-- 
2.43.0


From 2955e4638df672b1a82ab1e5fffb2442e63f65ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:57 +0000
Subject: [PATCH 123/132] fix: the output projection of an untied Qwen3.5
 checkpoint was never loaded

---
 pymllm/models/qwen3_5.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index 8d458c6..b11f6b8 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -1054,11 +1054,20 @@ class Qwen3_5ForConditionalGeneration(nn.Module):
         """Load HuggingFace checkpoint weights (visual + language)."""
         visual_weights: List[Tuple[str, torch.Tensor]] = []
         language_weights: List[Tuple[str, torch.Tensor]] = []
+        tied = self.lm_head.weight is self.model.embed_tokens.weight
 
         for name, weight in weights:
             if "visual" in name or "model.visual" in name:
                 name = name.replace("model.visual.", "visual.")
                 visual_weights.append((name, weight))
+            elif name.endswith("lm_head.weight"):
+                # The output projection belongs to this module, not to self.model.
+                if not tied:
+                    loader = getattr(self.lm_head.weight, "weight_loader", None)
+                    if loader is not None:
+                        loader(self.lm_head.weight, weight)
+                    else:
+                        self.lm_head.weight.data.copy_(weight)
             else:
                 language_weights.append((name, weight))
 
-- 
2.43.0


From 1fa3278f29915bb4456698e0efb538f6041adaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:57 +0000
Subject: [PATCH 124/132] fix: the batched GDN prefill dropped tokens once a
 chunk's cumulative decay underflowed

---
 pymllm/layers/attention/gdn_chunkwise.py | 41 ++++++++++++++----------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/pymllm/layers/attention/gdn_chunkwise.py b/pymllm/layers/attention/gdn_chunkwise.py
index 4d04319..037e6ac 100644
--- a/pymllm/layers/attention/gdn_chunkwise.py
+++ b/pymllm/layers/attention/gdn_chunkwise.py
@@ -107,34 +107,41 @@ def _batched_chunk_scan(
     gammaC = torch.exp(cumg[:, -1])           # [B]
 
     BK = bb.unsqueeze(-1) * Kc                 # [B, C, K]
-    # Guard β/γ overflow when γ underflows (matches CUDA kernel OPT-3: the
-    # contribution γ_r·ũ_t is below FP32 precision anyway, so set Ũ[t]=0).
-    inv_gamma = torch.where(gamma > 1e-30, 1.0 / gamma, torch.zeros_like(gamma))
-    BV = (bb * inv_gamma).unsqueeze(-1) * Vc   # [B, C, V]
-
-    # WY transform via unit-lower-triangular solve:  (I + tril(BK·Kᵀ,-1)) W = BK
-    A = torch.tril(torch.bmm(BK, Kc.transpose(1, 2)), diagonal=-1)   # [B, C, C]
+    BV = bb.unsqueeze(-1) * Vc                 # [B, C, V]
+
+    # Decay from token t to token r >= t, taken as one exponential: γ_r/γ_t would
+    # be 0/0 once the chunk's cumulative decay underflows.
+    causal = torch.ones(C, C, dtype=torch.bool, device=device).tril()
+    decay = torch.exp(
+        (cumg.unsqueeze(2) - cumg.unsqueeze(1)).masked_fill(~causal, float("-inf"))
+    )                                          # [B, C(r), C(t)]
+
+    # WY transform via unit-lower-triangular solve:
+    #   (I + tril(D ⊙ BK·Kᵀ,-1)) W = γ·BK,   (...) U = BV
+    A = torch.tril(torch.bmm(BK, Kc.transpose(1, 2)) * decay, diagonal=-1)   # [B, C, C]
     M = torch.eye(C, device=device, dtype=A.dtype).unsqueeze(0) + A
-    W = torch.linalg.solve_triangular(M, BK, upper=False, unitriangular=True)  # [B,C,K]
+    W = torch.linalg.solve_triangular(
+        M, gamma.unsqueeze(-1) * BK, upper=False, unitriangular=True
+    )  # [B,C,K]
     U = torch.linalg.solve_triangular(M, BV, upper=False, unitriangular=True)  # [B,C,V]
 
     # Causal K·Q (keep j <= r).
-    KQ = torch.triu(torch.bmm(Kc, Q.transpose(1, 2)))   # [B, C(j), C(r)]
+    KQ = torch.triu(torch.bmm(Kc, Q.transpose(1, 2)) * decay.transpose(1, 2))   # [B, C(j), C(r)]
 
     Qt = Q.transpose(1, 2)                      # [B, K, C]
     Wt = W.transpose(1, 2)                       # [B, K, C]
     Ut = U.transpose(1, 2)                        # [B, V, C]
 
     # State-independent precompute (fully batched across chunks & heads).
-    P = Qt - torch.bmm(Wt, KQ)                    # [B, K, C]
+    P = gamma.unsqueeze(1) * Qt - torch.bmm(Wt, KQ)    # [B, K, C]
     O_intra = torch.bmm(Ut, KQ)                   # [B, V, C]
-    Astate = torch.eye(K, device=device, dtype=Wt.dtype).unsqueeze(0) \
-        - torch.bmm(Wt, Kc)                       # [B, K, K]
-    UtK = torch.bmm(Ut, Kc)                       # [B, V, K]
+    Kend = decay[:, -1].unsqueeze(-1) * Kc        # [B, C, K]  decayed to the chunk's end
+    Astate = gammaC.view(B, 1, 1) * torch.eye(K, device=device, dtype=Wt.dtype) \
+        - torch.bmm(Wt, Kend)                     # [B, K, K]
+    UtK = torch.bmm(Ut, Kend)                     # [B, V, K]
 
     Astate_c = Astate.view(NC, HV, K, K)
     UtK_c = UtK.view(NC, HV, V, K)
-    gammaC_c = gammaC.view(NC, HV, 1, 1)
 
     # Sequential pass: only propagate the chunk-entry states (cheap, NC steps).
     # The per-token outputs are then computed in a single batched matmul, which
@@ -143,11 +150,11 @@ def _batched_chunk_scan(
     S = S0
     for c in range(NC):
         Sall[c] = S
-        S = gammaC_c[c] * (torch.bmm(S, Astate_c[c]) + UtK_c[c])
+        S = torch.bmm(S, Astate_c[c]) + UtK_c[c]
 
-    # O_c = gamma_c ⊙ (S_c @ P_c + O_intra)   — all chunks at once.
+    # O_c = S_c @ P_c + O_intra   — all chunks at once.
     SP = torch.bmm(Sall.reshape(B, V, K), P)            # [B, V, C]
-    out = gamma.view(B, 1, C) * (SP + O_intra)          # [B, V, C]
+    out = SP + O_intra                                  # [B, V, C]
     out = out.view(NC, HV, V, C).permute(0, 3, 1, 2).reshape(Lp, HV, V)[:L]
     return out, S
 
-- 
2.43.0


From af5ad54d52c9fd02b505aea978aa44e92140dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:50 +0000
Subject: [PATCH 125/132] fix: padding rows of CUDA-graph batches advanced the
 recurrent state of a live request

---
 pymllm/executor/cuda_graph_runner.py |  1 +
 pymllm/mem_cache/memory_pool.py      | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pymllm/executor/cuda_graph_runner.py b/pymllm/executor/cuda_graph_runner.py
index 7fa674b..9000780 100644
--- a/pymllm/executor/cuda_graph_runner.py
+++ b/pymllm/executor/cuda_graph_runner.py
@@ -181,6 +181,7 @@ class _InputBuffers:
 
         # Reset padding slots when the padded size exceeds the real size.
         if padded_bs != real_bs:
+            self.req_pool_indices.zero_()
             self.seq_lens.fill_(seq_len_fill_value)
             self.out_cache_loc.zero_()
             self.mrope_position_deltas.zero_()
diff --git a/pymllm/mem_cache/memory_pool.py b/pymllm/mem_cache/memory_pool.py
index 206f0b5..da7033d 100644
--- a/pymllm/mem_cache/memory_pool.py
+++ b/pymllm/mem_cache/memory_pool.py
@@ -342,6 +342,10 @@ class ReqToTokenPool:
     KV-pool index for every token position of every active request.
     Slots are recycled via a simple free-list.
 
+    Slots are numbered ``[1, max_reqs]``.  Slot 0 is reserved for the padding
+    rows of CUDA-graph batches (see also :class:`GDNPool`) and is never
+    allocated.
+
     This class is a **pure mapping table** -- it does **not** track per-request
     sequence lengths.  The caller (typically the ``Req`` / IO-struct object)
     must store ``req_pool_idx`` and ``seq_len`` and use them to slice into
@@ -384,9 +388,9 @@ class ReqToTokenPool:
         self.device = torch.device(device)
 
         self.req_to_token = torch.zeros(
-            (max_reqs, max_context_len), dtype=torch.int32, device=self.device
+            (max_reqs + 1, max_context_len), dtype=torch.int32, device=self.device
         )
-        self._free_slots: List[int] = list(range(max_reqs))
+        self._free_slots: List[int] = list(range(1, max_reqs + 1))
 
     def available_size(self) -> int:
         return len(self._free_slots)
@@ -411,7 +415,7 @@ class ReqToTokenPool:
         self.req_to_token[index] = values
 
     def clear(self) -> None:
-        self._free_slots = list(range(self.size))
+        self._free_slots = list(range(1, self.size + 1))
         self.req_to_token.zero_()
 
 
-- 
2.43.0


From 10fef24602b413744f9cfad5f2a23fb75595aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:56 +0000
Subject: [PATCH 126/132] fix: a prefix-cache hit restarted Qwen3-VL's rotary
 positions at zero

---
 pymllm/models/qwen3_vl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymllm/models/qwen3_vl.py b/pymllm/models/qwen3_vl.py
index 273a291..4595bb3 100644
--- a/pymllm/models/qwen3_vl.py
+++ b/pymllm/models/qwen3_vl.py
@@ -1192,6 +1192,10 @@ class Qwen3VLForConditionalGeneration(nn.Module):
                     self.vision_start_token_id,
                     self.spatial_merge_size,
                 )
+                # Tokens served from the prefix cache come before these.
+                prefix_lens = getattr(forward_batch, "extend_prefix_lens", None)
+                if prefix_lens is not None:
+                    pos3d = pos3d + prefix_lens[i].to(pos3d)
                 mrope_positions_list.append(pos3d)
                 deltas.append(delta)
 
-- 
2.43.0


From 7c0950aeb51ff4eb9be5dd5091358c730307b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:56 +0000
Subject: [PATCH 127/132] fix: an image marker typed as text took the image
 grid of another request

---
 pymllm/models/qwen3_vl.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pymllm/models/qwen3_vl.py b/pymllm/models/qwen3_vl.py
index 4595bb3..6af5247 100644
--- a/pymllm/models/qwen3_vl.py
+++ b/pymllm/models/qwen3_vl.py
@@ -640,7 +640,11 @@ def get_rope_index(
     while i < total_tokens:
         token = input_ids_cpu[i]
 
-        if token == vision_start_token_id and image_idx < len(grid_thw_list):
+        if (
+            token == vision_start_token_id
+            and image_idx < len(grid_thw_list)
+            and input_ids_cpu[i + 1 : i + 2] == [image_token_id]
+        ):
             # The vision_start token itself gets a regular sequential position.
             position_ids[:, i] = llm_pos_ids_start
             llm_pos_ids_start += 1
@@ -1176,7 +1180,15 @@ class Qwen3VLForConditionalGeneration(nn.Module):
                 seq_ids = input_ids[start : start + length]
 
                 # Determine how many images belong to this sequence.
-                num_img = int((seq_ids == self.vision_start_token_id).sum().item())
+                # A vision_start that no image follows is ordinary text.
+                num_img = int(
+                    (
+                        (seq_ids[:-1] == self.vision_start_token_id)
+                        & (seq_ids[1:] == self.image_token_id)
+                    )
+                    .sum()
+                    .item()
+                )
                 if image_grid_thw is not None and num_img > 0:
                     thw_seq = image_grid_thw[
                         image_idx_offset : image_idx_offset + num_img
-- 
2.43.0


From a45706bb09f0adb9188a5c3513d5fe9af90603bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:04 +0000
Subject: [PATCH 128/132] fix: an image request was answered from the cached
 prefix of another image

---
 pymllm/orchestrator/model_runner_process.py | 41 +++++++++++++++++++--
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 850e0db..62b97a4 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -38,6 +38,17 @@ _EVICT_FRACTION = 0.10
 _MAX_EVICT_RETRIES = 3
 
 
+def _has_images(mm_inputs: Optional[Dict[str, Any]]) -> bool:
+    """Whether the tokenizer attached pixels to a request."""
+    if mm_inputs is None:
+        return False
+    src = mm_inputs.get("image_inputs") if "image_inputs" in mm_inputs else mm_inputs
+    if src is None:
+        return False
+    get = src.get if hasattr(src, "get") else lambda k: getattr(src, k, None)
+    return get("pixel_values") is not None
+
+
 class ModelRunnerProcess:
     """GPU-owning component created in-process by SchedulerProcess."""
 
@@ -82,6 +93,10 @@ class ModelRunnerProcess:
         # tokens due to 3-D image grid positions.
         self._rid_to_mrope_delta: Dict[str, int] = {}
 
+        # rids whose prompt contains images.  Their placeholder tokens do not
+        # tell which image is shown, so they never use the prefix cache.
+        self._rids_with_images: Set[str] = set()
+
         # GDN prefix cache state tracking (hybrid models only):
         # Maps rid -> GDN track slot index in GDNPool (for snapshotting state)
         self._rid_to_gdn_track_slot: Dict[str, int] = {}
@@ -531,7 +546,7 @@ class ModelRunnerProcess:
         for m in requests_meta:
             rid = m["rid"]
             input_ids = self._rid_to_input_ids.get(rid)
-            if input_ids is None:
+            if input_ids is None or rid in self._rids_with_images:
                 continue
 
             slot = self._rid_to_req_pool_idx.get(rid)
@@ -688,7 +703,16 @@ class ModelRunnerProcess:
             # Store input_ids for later radix cache insert
             self._rid_to_input_ids[m["rid"]] = full_input_ids
 
-            if cache is not None and len(full_input_ids) > 0:
+            if _has_images(m.get("mm_inputs")):
+                self._rids_with_images.add(m["rid"])
+            else:
+                self._rids_with_images.discard(m["rid"])
+
+            if (
+                cache is not None
+                and len(full_input_ids) > 0
+                and m["rid"] not in self._rids_with_images
+            ):
                 key = RadixKey(full_input_ids)
                 match_result = cache.match_prefix(key)
                 prefix_len = match_result.prefix_len
@@ -889,7 +913,11 @@ class ModelRunnerProcess:
                 # Allocate a track slot only when the radix cache is enabled;
                 # track slots are freed via the eviction callback so they must
                 # be associated with a node, which only happens when cache is on.
-                if cache is not None and not isinstance(cache, ChunkCache):
+                if (
+                    cache is not None
+                    and not isinstance(cache, ChunkCache)
+                    and rid not in self._rids_with_images
+                ):
                     ts = gdn_pool.alloc_track_slot()
                     if ts is not None:
                         self._rid_to_gdn_track_slot[rid] = ts
@@ -1050,7 +1078,12 @@ class ModelRunnerProcess:
         # and the eviction callback; here we just remove the rid mapping.
         self._rid_to_gdn_track_slot.pop(rid, None)
 
-        cache_enabled = cache is not None and not isinstance(cache, ChunkCache)
+        cache_enabled = (
+            cache is not None
+            and not isinstance(cache, ChunkCache)
+            and rid not in self._rids_with_images
+        )
+        self._rids_with_images.discard(rid)
 
         # ----------------------------------------------------------
         # Phase 1: Read all KV indices BEFORE freeing anything.
-- 
2.43.0


From 14c040ae1a38c47aea3ed78eb706de2efe3720e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:14 +0000
Subject: [PATCH 129/132] fix: an image marker typed as text took the image
 grid of another request in Qwen3.5

---
 pymllm/models/qwen3_5.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index b11f6b8..fa676b8 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -837,7 +837,11 @@ def get_rope_index_qwen3_5(
     i = 0
 
     while i < total:
-        if ids[i] == vision_start_token_id and img_idx < len(grids):
+        if (
+            ids[i] == vision_start_token_id
+            and img_idx < len(grids)
+            and ids[i + 1 : i + 2] == [image_token_id]
+        ):
             # vision_start token → regular sequential position
             pos[:, i] = cur
             cur += 1
@@ -973,7 +977,15 @@ class Qwen3_5ForConditionalGeneration(nn.Module):
                     if forward_batch.extend_prefix_lens is not None else 0
 
                 # Determine how many images belong to this sequence.
-                num_img = int((seq_ids == self.vision_start_token_id).sum().item())
+                # A vision_start that no image follows is ordinary text.
+                num_img = int(
+                    (
+                        (seq_ids[:-1] == self.vision_start_token_id)
+                        & (seq_ids[1:] == self.image_token_id)
+                    )
+                    .sum()
+                    .item()
+                )
                 if image_grid_thw is not None and num_img > 0:
                     thw_seq = image_grid_thw[
                         image_idx_offset : image_idx_offset + num_img
-- 
2.43.0


From a3140b8b91410243bf0e067d3d58d53361b960c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:00 +0000
Subject: [PATCH 130/132] fix: Qwen3.5 rotated image tokens by their temporal
 position only

---
 pymllm/models/qwen3_5.py | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index fa676b8..2ee512a 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -31,7 +31,7 @@ from pymllm.layers.gated_delta_net import GatedDeltaNet
 from pymllm.layers.linear import Linear
 from pymllm.layers.mlp import MLP
 from pymllm.layers.rms_norm import GemmaRMSNorm, RMSNorm
-from pymllm.layers.rope import apply_rope_pos_ids
+from pymllm.layers.rope import apply_mrope, apply_rope_pos_ids
 from pymllm.layers.utils import set_weight_attrs
 
 logger = logging.getLogger(__name__)
@@ -113,6 +113,8 @@ class Qwen3_5FullAttention(nn.Module):
         rope_config = getattr(tc, "rope_parameters", None) or getattr(tc, "rope_scaling", None) or {}
         self.rope_theta = rope_config.get("rope_theta", getattr(tc, "rope_theta", 10000.0))
         self.rotary_dim = int(self.head_dim * self.partial_rotary_factor)
+        self.mrope_section = rope_config.get("mrope_section")
+        self.mrope_interleaved = rope_config.get("mrope_interleaved", True)
 
         # RadixAttention layer — delegates to the pluggable attention backend
         self.attn = RadixAttention(
@@ -149,10 +151,14 @@ class Qwen3_5FullAttention(nn.Module):
         # RoPE (inplace; rotary_dim handles partial rotation)
         q = q.view(seq_len, self.num_heads, self.head_dim)
         k = k.view(seq_len, self.num_kv_heads, self.head_dim)
-        apply_rope_pos_ids(
-            q, k, positions, inplace=True,
-            rotary_dim=self.rotary_dim, rope_theta=self.rope_theta,
-        )
+        if positions.ndim == 2 and self.mrope_section is not None:
+            # Image tokens: (temporal, height, width) positions.
+            q, k = self._apply_mrope(q, k, positions)
+        else:
+            apply_rope_pos_ids(
+                q, k, positions, inplace=True,
+                rotary_dim=self.rotary_dim, rope_theta=self.rope_theta,
+            )
         q = q.reshape(seq_len, -1)
         k = k.reshape(seq_len, -1)
 
@@ -165,6 +171,22 @@ class Qwen3_5FullAttention(nn.Module):
 
         return self.o_proj(attn_output)
 
+    def _apply_mrope(
+        self, q: torch.Tensor, k: torch.Tensor, positions: torch.Tensor
+    ) -> Tuple[torch.Tensor, torch.Tensor]:
+        """Rotate by 3-D positions, shape ``[3, T]``."""
+        exponents = torch.arange(
+            0, self.rotary_dim, 2, dtype=torch.float32, device=positions.device
+        )
+        inv_freq = self.rope_theta ** (-exponents / self.rotary_dim)
+        freqs = positions.reshape(-1, 1).float() * inv_freq
+        cos_sin = torch.cat((freqs.cos(), freqs.sin()), dim=-1).to(q.dtype)
+        rows = torch.arange(positions.numel(), device=positions.device)
+        return apply_mrope(
+            q, k, rows.view_as(positions), cos_sin,
+            list(self.mrope_section), self.mrope_interleaved,
+        )
+
 
 # ---------------------------------------------------------------------------
 # Full Attention Decoder Layer
@@ -1007,6 +1029,8 @@ class Qwen3_5ForConditionalGeneration(nn.Module):
 
             # Concatenate across sequences: [3, total_extend_tokens]
             positions = torch.cat(mrope_positions_list, dim=1).contiguous()
+            if image_grid_thw is None:
+                positions = positions[0]  # text only: the three are equal
             forward_batch.mrope_position_deltas = torch.tensor(
                 deltas, dtype=torch.int64, device=input_ids.device
             )
@@ -1018,7 +1042,7 @@ class Qwen3_5ForConditionalGeneration(nn.Module):
                 pos_1d = forward_batch.positions + stored_deltas
             else:
                 pos_1d = forward_batch.positions
-            positions = pos_1d.unsqueeze(0).expand(3, -1).contiguous()  # [3, batch_size]
+            positions = pos_1d  # the three positions of a text token are equal
 
         if (
             pixel_values is not None
-- 
2.43.0


From 197a4e8c735a9a00fc5413750bae28ca63dec6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:46 +0000
Subject: [PATCH 131/132] fix: Qwen3.5 silently skipped the gate and up
 projections of AWQ checkpoints

---
 pymllm/models/qwen3_5.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index 2ee512a..0b8b6d1 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -441,16 +441,17 @@ class Qwen3_5ForCausalLM(nn.Module):
                 if stacked_name not in params_dict:
                     continue
                 param = params_dict[stacked_name]
-                # gate_up_proj is a plain Linear — manually place each shard.
-                # Guard: skip metadata tensors (e.g. weight_shape [2]) that
-                # cannot be evenly halved along dim-0.
-                output_dim = param.shape[0] // 2
-                if weight.shape[0] != output_dim:
-                    break  # not a shardable weight tensor; fall through to direct load
                 name = stacked_name  # commit rename
-                param.data[shard_id * output_dim : (shard_id + 1) * output_dim].copy_(
-                    weight
-                )
+                loader = getattr(param, "weight_loader", None)
+                if loader is not None:
+                    # Knows along which dimension the shards lie (AWQ packs
+                    # them along dim 1) and what to do with metadata tensors.
+                    loader(param, weight, shard_id)
+                else:
+                    output_dim = param.shape[0] // 2
+                    param.data[
+                        shard_id * output_dim : (shard_id + 1) * output_dim
+                    ].copy_(weight)
                 matched = True
                 break
 
-- 
2.43.0


From 21c959aedc13a7a0ea48fa8be8baf5d31fe65163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:46 +0000
Subject: [PATCH 132/132] fix: compressed-tensors checkpoints with unquantized
 q/k/v or gate/up projections got unloaded quantized layers

---
 .../methods/compressed_tensors.py             | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/pymllm/quantization/methods/compressed_tensors.py b/pymllm/quantization/methods/compressed_tensors.py
index db81603..273ae5a 100644
--- a/pymllm/quantization/methods/compressed_tensors.py
+++ b/pymllm/quantization/methods/compressed_tensors.py
@@ -17,6 +17,12 @@ GPTQ_MARLIN_MIN_THREAD_N = 64
 GPTQ_MARLIN_MIN_THREAD_K = 128
 GPTQ_MARLIN_TILE = 16
 
+# Modules that pymllm fuses -> the modules they consist of in checkpoints
+_FUSED_MODULES = {
+    "qkv_proj": ("q_proj", "k_proj", "v_proj"),
+    "gate_up_proj": ("gate_proj", "up_proj"),
+}
+
 
 class _ScalarTypeInfo:
     def __init__(self, name: str, size_bits: int, type_id: int):
@@ -625,17 +631,34 @@ class CompressedTensorsConfig(QuantizationConfig):
         #      e.g. ignore=["linear_attn"] matches prefix="layers.0.linear_attn.out_proj"
         # Style 2 is needed because nested module names (e.g. inside decoder layers)
         # never start with the bare module name.
-        dotted = f".{prefix}."
-        def _is_ignored(ignored: str) -> bool:
+        def _is_ignored(ignored: str, name: str) -> bool:
             if not ignored:
                 return False
             # Support llm-compressor-style regex patterns: "re:.*pattern.*"
             if ignored.startswith("re:"):
                 try:
-                    return bool(re.search(ignored[3:], prefix))
+                    return bool(re.search(ignored[3:], name))
                 except re.error:
                     return False
-            return prefix.startswith(ignored) or f".{ignored}." in dotted
-        if any(_is_ignored(ig) for ig in self.ignore):
+            return name.startswith(ignored) or f".{ignored}." in f".{name}."
+
+        def _any_ignored(name: str) -> bool:
+            return any(_is_ignored(ig, name) for ig in self.ignore)
+
+        if _any_ignored(prefix):
+            return None
+        # Checkpoints list the modules that pymllm fuses under their own names.
+        parent, _, module = prefix.rpartition(".")
+        shards = [
+            _any_ignored(f"{parent}.{shard}" if parent else shard)
+            for shard in _FUSED_MODULES.get(module, ())
+        ]
+        if any(shards):
+            if not all(shards):
+                raise ValueError(
+                    f"compressed-tensors: {prefix} is fused from "
+                    f"{_FUSED_MODULES[module]}, which must all be ignored or "
+                    "all be quantized"
+                )
             return None
         return CompressedTensorsLinearMethod(self, signature)
-- 
2.43.0

