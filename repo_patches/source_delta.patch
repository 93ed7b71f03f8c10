From 14ecaabf0cc2806c8313cd4e835a4e8d67d46171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:52 +0000
Subject: [PATCH 01/95] fix: cover the whole range when RangeNodeSampler runs
 with replicas

With data_parallel_num > 1 the padding of the last batch could overwrite the
last node of the range. With several workers the blocks of neighbouring
workers overlapped, because the worker offset ignored the number of replicas.
---
 src/python/deepgnn/graph_engine/samplers.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 96c5dd0..bfab80b 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -543,7 +543,8 @@ class _RangeNodeIterator(_GEIterator):
         last = self.first + self.batch_size * self.data_parallel_num
         res = np.arange(self.first, last, step=self.data_parallel_num)
         if last > self.last:
-            res[(self.last - self.first) // self.data_parallel_num :] = self.backfill_id
+            count = math.ceil((self.last - self.first) / self.data_parallel_num)
+            res[count:] = self.backfill_id
 
         self.first += self.num_workers * self.batch_size * self.data_parallel_num
         return res
@@ -572,13 +573,21 @@ class RangeNodeSampler(BaseSampler):
             data_parallel_index=data_parallel_index,
             data_parallel_num=data_parallel_num,
         )
-        self.start_id = first + worker_index * batch_size
+        self.first = first
+        self.worker_index = worker_index
         self.last = last
         assert self.start_id < self.last
         self.batch_size = batch_size
         self.num_workers = num_workers
         self.backfill_id = backfill_id
 
+    @property
+    def start_id(self) -> int:
+        """First node of this worker, replicas of a worker share its blocks."""
+        return (
+            self.first + self.worker_index * self.batch_size * self.data_parallel_num
+        )
+
     def __iter__(self) -> _RangeNodeIterator:
         """Return a new range iterator."""
         return _RangeNodeIterator(
-- 
2.43.0


From 1ac22bb4f1789ea0ed7dd8d536e8a5ae165f2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:52 +0000
Subject: [PATCH 02/95] fix: honour drop_last in FileEdgeSampler when edges
 have features

The iterator was created without drop_last, so the incomplete last batch was
padded instead of dropped.
---
 src/python/deepgnn/graph_engine/samplers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index bfab80b..6dcae98 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -429,6 +429,7 @@ class FileEdgeSampler(BaseSampler):
                 ),
                 np.zeros(shape=(self.feature_dim), dtype=np.float32),
             ],
+            drop_last=self.drop_last,
             data_parallel_num=self.data_parallel_num,
             data_parallel_index=self.data_parallel_index,
         )
-- 
2.43.0


From e68a47a64327f068a9342a0791038c5afdb833c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:52 +0000
Subject: [PATCH 03/95] fix: make CSVNodeSampler repeat epochs and restart
 iteration

The sampler ignored the number of epochs while iterating, yielded nothing
when iterated a second time and reported a length that did not match the
number of batches.
---
 src/python/deepgnn/graph_engine/samplers.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 6dcae98..99c606f 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -718,14 +718,12 @@ class CSVNodeSampler(BaseSampler):
 
         self.node_list: np.ndarray = np.array(node_list)
         self.cur_batch = 0
-        self.count = (
-            (len(node_list) + self.batch_size - 1)
-            // (self.batch_size * self.data_parallel_num)
-            * epoch
-        )
+        self.cur_epoch = 0
 
     def __iter__(self):
-        """No-op."""
+        """Start iteration from beginning."""
+        self.cur_batch = 0
+        self.cur_epoch = 0
         return self
 
     def __next__(self) -> np.ndarray:
@@ -735,7 +733,11 @@ class CSVNodeSampler(BaseSampler):
             + self.data_parallel_index
         )
         if start_pos >= len(self.node_list):
-            raise StopIteration
+            start_pos = self.data_parallel_index
+            if self.cur_epoch + 1 >= self.epochs or start_pos >= len(self.node_list):
+                raise StopIteration
+            self.cur_epoch += 1
+            self.cur_batch = 0
         self.cur_batch += 1
         end_pos = (
             self.cur_batch * self.batch_size * self.data_parallel_num
@@ -747,7 +749,10 @@ class CSVNodeSampler(BaseSampler):
 
     def __len__(self) -> int:
         """Total number of minibatches in this sampler."""
-        return self.count
+        count = max(0, len(self.node_list) - self.data_parallel_index)
+        return self.epochs * math.ceil(
+            count / (self.batch_size * self.data_parallel_num)
+        )
 
 
 class FileTupleSampler(BaseSampler):
-- 
2.43.0


From 23657086f86fe1570ab736c6745019c8fe27803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:52 +0000
Subject: [PATCH 04/95] fix: do not yield a batch of blank lines from an empty
 text file

TextFileSampler returned one batch filled with padding when its share of the
input had no lines.
---
 src/python/deepgnn/graph_engine/samplers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 99c606f..9e1a33d 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -932,6 +932,9 @@ class TextFileSampler(BaseSampler):
                 self.end = True
                 break
 
+        if len(self.buf) == 0:
+            raise StopIteration
+
         if self.shuffle and new_added:
             random.shuffle(self.buf)
 
-- 
2.43.0


From 947dfbfa86f185e52de8e2f5293ca423d6e20b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:15 +0000
Subject: [PATCH 05/95] fix: report the number of batches a sampler replica
 really yields

The length was computed as if every replica got an equal share. Replicas
with a higher index reported a batch that they never yielded, and with
drop_last the first replicas yielded a batch more than they reported.
---
 src/python/deepgnn/graph_engine/samplers.py | 92 ++++++++++-----------
 1 file changed, 42 insertions(+), 50 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 9e1a33d..7158959 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -34,6 +34,18 @@ def get_python_type(dtype):
     return type(dtype(0).item())
 
 
+def _count_batches(
+    total: int,
+    batch_size: int,
+    drop_last: bool,
+    data_parallel_num: int,
+    data_parallel_index: int,
+) -> int:
+    """Count batches one replica gets when batches are dealt to replicas in turn."""
+    count = total // batch_size if drop_last else math.ceil(total / batch_size)
+    return max(0, math.ceil((count - data_parallel_index) / data_parallel_num))
+
+
 class _GEIterator:
     """Iterable component to iterate using graph API.
 
@@ -386,18 +398,13 @@ class FileEdgeSampler(BaseSampler):
 
     def __len__(self) -> int:
         """Total number of minibatches in this sampler."""
-        if self.drop_last:
-            return math.floor(
-                len(self.edges)
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
-        else:
-            return math.ceil(
-                len(self.edges)
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
+        return _count_batches(
+            len(self.edges) * self.epochs,
+            self.batch_size,
+            self.drop_last,
+            self.data_parallel_num,
+            self.data_parallel_index,
+        )
 
     def __iter__(self) -> _NumpyIterator:
         """Create a numpy based iterator."""
@@ -500,18 +507,13 @@ class FileNodeSampler(BaseSampler):
 
     def __len__(self) -> int:
         """Total number of minibatches in this sampler."""
-        if self.drop_last:
-            return math.floor(
-                len(self.nodes)
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
-        else:
-            return math.ceil(
-                len(self.nodes)
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
+        return _count_batches(
+            len(self.nodes) * self.epochs,
+            self.batch_size,
+            self.drop_last,
+            self.data_parallel_num,
+            self.data_parallel_index,
+        )
 
 
 class _RangeNodeIterator(_GEIterator):
@@ -604,10 +606,10 @@ class RangeNodeSampler(BaseSampler):
     def __len__(self) -> int:
         """Total number of minibatches in this sampler."""
         res = math.ceil(
-            (self.last - self.start_id)
+            (self.last - self.start_id - self.data_parallel_index)
             / (self.batch_size * self.num_workers * self.data_parallel_num)
         )
-        return res
+        return max(0, res)
 
 
 class _RangeEdgeIterator(_RangeNodeIterator):
@@ -823,18 +825,13 @@ class FileTupleSampler(BaseSampler):
 
     def __len__(self) -> int:
         """Total number of minibatches in this sampler."""
-        if self.drop_last:
-            return math.floor(
-                len(self.data)
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
-        else:
-            return math.ceil(
-                len(self.data)
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
+        return _count_batches(
+            len(self.data) * self.epochs,
+            self.batch_size,
+            self.drop_last,
+            self.data_parallel_num,
+            self.data_parallel_index,
+        )
 
     def __iter__(self) -> _NumpyIterator:
         """Create a new numpy based iterator from this sampler."""
@@ -1051,18 +1048,13 @@ class FileTupleSamplerV2(BaseSampler):
 
     def __len__(self) -> int:
         """Return number of minibatches in this sampler."""
-        if self.drop_last:
-            return math.floor(
-                len(self.data[0])
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
-        else:
-            return math.ceil(
-                len(self.data[0])
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
+        return _count_batches(
+            len(self.data[0]) * self.epochs,
+            self.batch_size,
+            self.drop_last,
+            self.data_parallel_num,
+            self.data_parallel_index,
+        )
 
     def __iter__(self) -> _NumpyIterator:
         """Create a new iterator."""
-- 
2.43.0


From 152d6656873711c2644e90394a3f3d5d2a6504b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:46 +0000
Subject: [PATCH 06/95] fix: split text files on line feeds only

Lines containing other unicode line separators (U+2028, U+0085, form
feed, ...) were delivered as several lines.
---
 src/python/deepgnn/graph_engine/_adl_reader.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index d2417e6..9fb7cd5 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -17,6 +17,12 @@ from deepgnn.graph_engine._base import get_fs
 LINE_DELIMITER = int.from_bytes(b"\n", "little")
 
 
+def _split_lines(data) -> List[str]:
+    """Split bytes on line feeds only, str.splitlines also breaks on other unicode separators."""
+    text = data.decode("utf-8")
+    return [line.rstrip("\r") for line in text.split("\n")] if text else []
+
+
 # A indicator which is put to the queue with the count.
 # __next__ function in iterable will get each queue item
 # till reach the end which is specified by this indicator.
@@ -182,10 +188,8 @@ class TextFileIterator:
                     sub_block[last_delim_index + 1 :]
                 )
                 if last_delim_index != first_delim_index:
-                    decoded_buf[index]["lines"] = (
+                    decoded_buf[index]["lines"] = _split_lines(
                         sub_block[first_delim_index + 1 : last_delim_index]
-                        .decode("utf-8")
-                        .splitlines()
                     )
 
             len_to_read = self.get_length_to_read()
@@ -237,9 +241,7 @@ class TextFileIterator:
             if cur_buf["suffix"] is not None:
                 if head_block["suffix"] is not None:
                     # there is '\n' in head block, concat the current prefix and head's suffix and decode.
-                    head_block["lines"].extend(
-                        head_buf.decode("utf-8").splitlines(False)
-                    )
+                    head_block["lines"].extend(_split_lines(head_buf))
 
                 # concat lines in current block into head block
                 head_block["lines"].extend(cur_buf["lines"])
@@ -391,9 +393,7 @@ class TextFileIterator:
 
             if head["suffix"] is not None:
                 if len(self.remain_bytes) > 0:
-                    self.remain_lines.extend(
-                        self.remain_bytes.decode("utf-8").splitlines(False)
-                    )
+                    self.remain_lines.extend(_split_lines(self.remain_bytes))
                 self.remain_lines.extend(head["lines"])
                 self.remain_bytes = head["suffix"]
 
-- 
2.43.0


From 68a89380cfe4249eb6b75a546b8461f9bf247ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:46 +0000
Subject: [PATCH 07/95] fix: read the whole split again when
 TextFileSplitIterator restarts

---
 src/python/deepgnn/graph_engine/_adl_reader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index 9fb7cd5..6cc92fa 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -426,6 +426,7 @@ class TextFileSplitIterator(TextFileIterator):
     ):
         self.worker_offset = worker_offset
         self.total_read_length = total_read_length
+        self.left_read_length = total_read_length
 
         super(TextFileSplitIterator, self).__init__(
             filename=filename,
@@ -457,12 +458,18 @@ class TextFileSplitIterator(TextFileIterator):
 
         return total_files
 
+    def reset(self):
+        # stop the previous reader first, it also consumes the length.
+        self.join()
+        self.left_read_length = self.total_read_length
+        super().reset()
+
     def get_length_to_read(self) -> int:
-        if self.total_read_length == -1:
+        if self.left_read_length == -1:
             return self.length
 
-        read = min(self.total_read_length, self.length)
-        self.total_read_length -= read
+        read = min(self.left_read_length, self.length)
+        self.left_read_length -= read
         return read
 
     def get_offset(self) -> int:
-- 
2.43.0


From 676c640504d76ac01299cfac8ac98bdcc862db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:21 +0000
Subject: [PATCH 08/95] fix: report read failures of TextFileIterator instead
 of ending the data

Exceptions raised in the reading threads were dropped and the unread
block was taken for the end of the file.
---
 .../deepgnn/graph_engine/_adl_reader.py       | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index 6cc92fa..1c0d838 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -195,21 +195,29 @@ class TextFileIterator:
             len_to_read = self.get_length_to_read()
             sub_len = len_to_read // self.thread_count
             last_id = self.thread_count - 1
-            for thread_idx in range(last_id):
+            reads = [
                 pool.submit(
                     _read_block_worker,
                     thread_idx,
                     self.offset + (thread_idx * sub_len),
                     sub_len,
                 )
+                for thread_idx in range(last_id)
+            ]
 
-            pool.submit(
-                _read_block_worker,
-                last_id,
-                self.offset + (last_id * sub_len),
-                len_to_read - last_id * sub_len,
+            reads.append(
+                pool.submit(
+                    _read_block_worker,
+                    last_id,
+                    self.offset + (last_id * sub_len),
+                    len_to_read - last_id * sub_len,
+                )
             )
 
+        # an unread block must not look like the end of the file.
+        for read in reads:
+            read.result()
+
         # merge the prefix and suffix between blocks.
         # first we get the head block of the block list,
         # then we will concat each block after the head into head block.
@@ -256,6 +264,13 @@ class TextFileIterator:
         return 0
 
     def _read_block(self):
+        try:
+            self._read_all_blocks()
+        except Exception as e:
+            self.outputs.put(FetchDone(exception=e))
+            raise
+
+    def _read_all_blocks(self):
         while not self.stop:
             # try to read some data from current file using multi-threading
             block = self._read_block_by_threads()
@@ -382,6 +397,10 @@ class TextFileIterator:
             self.outputs.task_done()
             # if the head is finish indicator, convert the remaining unprocessed bytes to string and return
             if type(head) is FetchDone:
+                if head.exception_info is not None:
+                    self.end = True
+                    raise head.exception_info
+
                 if len(self.remain_bytes) != 0:
                     line = self.remain_bytes.decode("utf-8").strip("\r\n")
                     if len(line) > 0:
-- 
2.43.0


From cfce8d651ce2e1247a1a1e96a9e294c3a21a46a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:52 +0000
Subject: [PATCH 09/95] fix: let the interpreter exit when a TextFileIterator
 is abandoned

The reading thread was not a daemon, and a full output queue kept it
waiting forever once nobody consumed the lines.
---
 .../deepgnn/graph_engine/_adl_reader.py       | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index 1c0d838..ec86e2b 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -119,8 +119,7 @@ class TextFileIterator:
         self.remain_bytes = bytearray()
         # queue of file content bytes.
         self.outputs: Queue = Queue(buffer_queue_size)
-        self.pool = ThreadPoolExecutor(1)
-        self.workers = []  # type: ignore
+        self.workers: List[threading.Thread] = []
         self.files = self.get_worker_files(filename, worker_index, num_workers)
         self.shuffle = shuffle
         self.drop_last = drop_last
@@ -140,11 +139,11 @@ class TextFileIterator:
         self.stop = False
         self.remain_bytes = bytearray()
         self.remain_lines = []
-        self.workers = []  # type: ignore
 
-        self.pool = ThreadPoolExecutor(1)
-        f = self.pool.submit(self._read_block)
-        self.workers.append(f)
+        # daemon: an iterator abandoned with a full queue must not block interpreter exit.
+        worker = threading.Thread(target=self._read_block, daemon=True)
+        self.workers = [worker]
+        worker.start()
 
     def _read_block_by_threads(self) -> dict:
         decoded_buf: List[dict] = []
@@ -268,7 +267,6 @@ class TextFileIterator:
             self._read_all_blocks()
         except Exception as e:
             self.outputs.put(FetchDone(exception=e))
-            raise
 
     def _read_all_blocks(self):
         while not self.stop:
@@ -353,25 +351,22 @@ class TextFileIterator:
             self.outputs.task_done()
 
     def join(self):
-        if not threading.main_thread().is_alive():
-            self.pool.shutdown(wait=False)
-        else:
+        if threading.main_thread().is_alive():
             self.stop = True
-            while not all([f.done() for f in self.workers]):
-                # This drain function is used to unblock the threads in
-                # thread pool which are blocked by calling "outputs.put"
-                # function.
+            # the last reference to the iterator may be dropped by its own worker.
+            workers = [w for w in self.workers if w is not threading.current_thread()]
+            while any([w.is_alive() for w in workers]):
+                # This drain function is used to unblock the threads
+                # which are blocked by calling "outputs.put" function.
                 self._drain_outputs()
 
-            # Sometimes thread in the pool may exit very quickly and the
-            # above "while not all([f.done() for f in self.workers])"
-            # returns false, we need to call drain function one more time
-            # otherwise the following "outputs.join" will block due to
-            # un-empty queue.
+            # Sometimes a thread may exit very quickly and the above
+            # loop doesn't run, we need to call drain function one more
+            # time otherwise the following "outputs.join" will block due
+            # to un-empty queue.
             self._drain_outputs()
 
             self.outputs.join()
-            self.pool.shutdown(wait=True)
 
     def __next__(self) -> List[str]:
         # if all the queue item is processed, return stop
-- 
2.43.0


From 19898ad2585ef9cda26b5728bfb838d7aa97f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:41 +0000
Subject: [PATCH 10/95] fix: surface prefetch errors that follow the end marker
 and end cleanly

Generator returned an error marker as a batch when it came right after
the end-of-data marker, blocked when an empty iterator was asked again,
and went on after an error.
---
 src/python/deepgnn/graph_engine/prefetch.py | 35 +++++++++++----------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index 6cd7040..33d1c49 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -154,6 +154,9 @@ class Generator:
         """Initialize generator."""
         self.count = 0
         self.index = 0
+        # a state to show whether the iteration is finished.
+        self.end = False
+        self.counted = False
         self.outputs: Queue[Tuple[np.ndarray]] = Queue(prefetch_size)
         self.max_workers = max_workers
         self.pool = ThreadPoolExecutor(max_workers=max_workers)
@@ -190,25 +193,25 @@ class Generator:
 
     def __next__(self):
         """Parse the queue and get the "count" queue item. Use it to decide terminate the iteration or not."""
-        if self.count > 0 and self.index == self.count + 1:
-            raise StopIteration
-
-        item = self.outputs.get()
-        self.outputs.task_done()
-        self.index += 1
-        if type(item) is FetchDone:
-            if item.exception_info is not None:
-                get_logger().error(item.exception_info)
-                raise Exception(item.exception_info)
-            self.count = item.count
-            if self.index == self.count + 1:
-                raise StopIteration
-
+        while not self.end:
             item = self.outputs.get()
             self.outputs.task_done()
             self.index += 1
-
-        return item
+            is_marker = type(item) is FetchDone
+            if is_marker:
+                if item.exception_info is not None:
+                    self.end = True
+                    get_logger().error(item.exception_info)
+                    raise Exception(item.exception_info)
+                self.count = item.count
+                self.counted = True
+
+            # all the batches and the "count" queue item itself are received.
+            self.end = self.counted and self.index == self.count + 1
+            if not is_marker:
+                return item
+
+        raise StopIteration
 
     def _drain_outputs(self):
         while self.outputs.qsize() > 0:
-- 
2.43.0


From 48fc39beb23607629bef7ebf68fb22ee7ffe479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:42 +0000
Subject: [PATCH 11/95] fix: accept empty dense feature lists in JsonDecoder

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index c224f96..762717d 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -367,7 +367,7 @@ class JsonDecoder(Decoder):
                     ret_list.append(None)
                     curr += 1
 
-                if isinstance(value, list) and isinstance(value[0], dict):
+                if isinstance(value, list) and value and isinstance(value[0], dict):
                     value = self._serialize_temporal_features(
                         value, created_at, removed_at, key
                     )
-- 
2.43.0


From 2989ff99effe229aa31f814df341327347f69290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:53 +0000
Subject: [PATCH 12/95] fix: reject unknown feature types in TsvDecoder

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index 762717d..de6327c 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -485,6 +485,8 @@ class TsvDecoder(Decoder):
                 key = "double_feature"
             elif val[0][0] == "b":
                 key = "binary_feature"
+            else:
+                raise ValueError(f"Unknown feature type {val[0]} in {feature}")
 
             if len(val) != 2 or not val[0] or not val[1]:
                 value = None
-- 
2.43.0


From bfddd7344241221bc3ba3e07702c06682e492871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:53 +0000
Subject: [PATCH 13/95] fix: use default type for TSV neighbors without a type
 column

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index de6327c..d70d87c 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -534,7 +534,8 @@ class TsvDecoder(Decoder):
 
         def order(edge):
             edge_items = edge.split(",")
-            return int(edge_items[1]), int(edge_items[0])
+            edge_type = edge_items[1] if len(edge_items) > 1 else ""
+            return int(edge_type) if edge_type else 0, int(edge_items[0])
 
         for n in sorted(neighbors, key=order):
             neighbor_columns = n.split(",")
-- 
2.43.0


From 003723ae90be513a8ffe83f4224524a5773f1a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:10 +0000
Subject: [PATCH 14/95] fix: split input files only between converter workers
 that have partitions

---
 src/python/deepgnn/graph_engine/snark/convert.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index 855f82a..348ecc2 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -88,6 +88,13 @@ class MultiWorkersConverter:
             int(math.ceil(partition_count / worker_count)) if not self._debug else 1
         )
         self.partition_offset = self.partition_count * worker_index
+        # workers left without partitions don't convert anything, so input files
+        # should be split among the remaining ones.
+        self.reader_count = (
+            int(math.ceil(partition_count / max(self.partition_count, 1)))
+            if not self._debug
+            else 1
+        )
         if self.partition_offset + self.partition_count > partition_count:
             self.partition_count = partition_count - self.partition_offset
 
@@ -128,7 +135,7 @@ class MultiWorkersConverter:
                 buffer_queue_size=self.buffer_queue_size,
                 thread_count=self.thread_count,
                 worker_index=self.worker_index,
-                num_workers=self.worker_count,
+                num_workers=self.reader_count,
             )
 
         if not self._debug:
-- 
2.43.0


From 57abc3a8a8bc209046882f70205b65d44e740c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:10 +0000
Subject: [PATCH 15/95] fix: keep weights of every partition separate when
 merging metadata

---
 src/python/deepgnn/graph_engine/snark/meta_merger.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index ad5f082..4b8d412 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -55,8 +55,12 @@ class Meta:
         self.node_feature_count = meta["node_feature_count"]
         self.edge_feature_count = meta["edge_feature_count"]
         self.partition_count = len(meta["partitions"])
-        self.node_weights = [[0.0] * self.node_type_count] * self.partition_count
-        self.edge_weights = [[0.0] * self.edge_type_count] * self.partition_count
+        self.node_weights = [
+            [0.0] * self.node_type_count for _ in range(self.partition_count)
+        ]
+        self.edge_weights = [
+            [0.0] * self.edge_type_count for _ in range(self.partition_count)
+        ]
         for j, id in enumerate(meta["partitions"]):
             for i in range(self.node_type_count):
                 self.node_weights[j][i] += meta["partitions"][id]["node_weight"][i]
-- 
2.43.0


From 5c9d428314fc6ee26c3c182d7d1e4c48be056655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:10 +0000
Subject: [PATCH 16/95] fix: merge worker metadata in the order of worker
 indices

---
 src/python/deepgnn/graph_engine/snark/meta_merger.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index 4b8d412..9c45ffe 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -3,7 +3,7 @@
 
 """Merge meta data files generated by distributed converters."""
 import os
-from typing import List
+from typing import List, Tuple
 import json
 
 import fsspec
@@ -128,6 +128,12 @@ def merge_metadata_files(meta_path: str):
     if len(total_files) == 0:
         return
 
+    # partitions are numbered in the order of worker indices, glob order is lexicographic.
+    def worker_index(name: str) -> Tuple[int, str]:
+        index = os.path.basename(name)[len("meta_") :].split(".")[0]
+        return int(index) if index.isdigit() else -1, name
+
+    total_files.sort(key=worker_index)
     meta_list = [Meta(fs, f) for f in total_files]
     merge(fs, meta_path, meta_list)
 
-- 
2.43.0


From 68ab7bbb9164ff4d7e67bc913e4c2979269cd52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:10 +0000
Subject: [PATCH 17/95] fix: account for types and features missing from the
 first worker when merging metadata

---
 .../deepgnn/graph_engine/snark/meta_merger.py | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index 9c45ffe..e8215b0 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -17,10 +17,10 @@ from deepgnn.graph_engine._base import get_fs
 # binary_version          equal
 # node_count              additive
 # edge_count              additive
-# node_type_count         equal
-# edge_type_count         equal
-# node_feature_count      equal
-# edge_feature_count      equal
+# node_type_count         max
+# edge_type_count         max
+# node_feature_count      max
+# edge_feature_count      max
 # node weight             additive
 # edge weight             additive
 # node count              additive
@@ -87,14 +87,23 @@ def merge(fs, output_dir: str, meta_list: List[Meta]):
     assert all(
         map(lambda x: x.version == meta_list[0].version, meta_list)
     ), "All partitions must have the same binary version"
+    # workers might not see every type, add missing ones with zero weights/counts.
+    node_type_count = max([int(i.node_type_count) for i in meta_list])
+    edge_type_count = max([int(i.edge_type_count) for i in meta_list])
+    for i in meta_list:
+        for values in i.node_weights + [i.node_count_per_type]:
+            values.extend([0] * (node_type_count - len(values)))
+        for values in i.edge_weights + [i.edge_count_per_type]:
+            values.extend([0] * (edge_type_count - len(values)))
+
     content = {
         "binary_data_version": meta_list[0].version,
         "node_count": sum([i.node_count for i in meta_list]),
         "edge_count": sum([i.edge_count for i in meta_list]),
-        "node_type_count": meta_list[0].node_type_count,
-        "edge_type_count": meta_list[0].edge_type_count,
-        "node_feature_count": int(meta_list[0].node_feature_count),
-        "edge_feature_count": int(meta_list[0].edge_feature_count),
+        "node_type_count": node_type_count,
+        "edge_type_count": edge_type_count,
+        "node_feature_count": max([int(i.node_feature_count) for i in meta_list]),
+        "edge_feature_count": max([int(i.edge_feature_count) for i in meta_list]),
         "watermark": int(meta_list[0].watermark),
     }
     offset = 0
@@ -105,11 +114,11 @@ def merge(fs, output_dir: str, meta_list: List[Meta]):
 
     content["node_count_per_type"] = [
         sum([i.node_count_per_type[count] for i in meta_list])
-        for count in range(int(meta_list[0].node_type_count))
+        for count in range(node_type_count)
     ]
     content["edge_count_per_type"] = [
         sum([i.edge_count_per_type[count] for i in meta_list])
-        for count in range(int(meta_list[0].edge_type_count))
+        for count in range(edge_type_count)
     ]
 
     with fs.open("{}/meta.json".format(output_dir), "w") as file:
-- 
2.43.0


From 9f04924f13cd9d388662a65bf51b1ce83da02943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:11 +0000
Subject: [PATCH 18/95] fix: respect skip sampler flags in converter debug mode

---
 src/python/deepgnn/graph_engine/snark/convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index 348ecc2..b57a96f 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -80,6 +80,8 @@ class MultiWorkersConverter:
         self.dispatcher = dispatcher
         self.file_iterator = file_iterator
         self.watermark = watermark
+        self.skip_node_sampler = skip_node_sampler
+        self.skip_edge_sampler = skip_edge_sampler
 
         self.fs, _ = get_fs(graph_path)
 
@@ -157,6 +159,8 @@ class MultiWorkersConverter:
             writer = BinaryWriter(
                 self.output_dir,
                 0,
+                self.skip_node_sampler,
+                self.skip_edge_sampler,
                 watermark=self.watermark,
             )
             for _, data in enumerate(self.file_iterator):
-- 
2.43.0


From 52e823a7d6d6af746fafe3eaa46eee770298dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:19:27 +0000
Subject: [PATCH 19/95] fix: report failures of converter workers instead of
 waiting for them forever

---
 .../deepgnn/graph_engine/snark/convert.py     |  4 +-
 .../graph_engine/snark/converter/process.py   | 50 ++++++++++++-------
 .../deepgnn/graph_engine/snark/dispatcher.py  |  5 ++
 3 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index b57a96f..dfe8877 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -44,8 +44,8 @@ class MultiWorkersConverter:
     ):
         """Run multi worker converter in multi process.
 
-        * Converter may stall if an error is thrown inside of the multiprocessing.
-        In order to disable multprocessing and see the error message, use debug=True.
+        * Errors thrown inside of the multiprocessing are reported when all input is dispatched.
+        In order to disable multprocessing and see the error as soon as possible, use debug=True.
 
         Args:
             graph_path: the raw graph file folder.
diff --git a/src/python/deepgnn/graph_engine/snark/converter/process.py b/src/python/deepgnn/graph_engine/snark/converter/process.py
index f5772c9..62acae3 100644
--- a/src/python/deepgnn/graph_engine/snark/converter/process.py
+++ b/src/python/deepgnn/graph_engine/snark/converter/process.py
@@ -3,6 +3,7 @@
 
 """Conversion functions to internal binary format."""
 import multiprocessing as mp
+import traceback
 import typing
 import platform
 
@@ -17,9 +18,16 @@ from deepgnn.graph_engine.snark.decoders import DecoderType
 
 FLAG_ALL_DONE = b"WORK_FINISHED"
 FLAG_WORKER_FINISHED_PROCESSING = b"WORKER_FINISHED_PROCESSING"
+FLAG_WORKER_FAILED = b"WORKER_FAILED"
 PROCESS_PRINT_INTERVAL = 1000
 
 
+def _next_line(q_in: typing.Union[mp.Queue, Connection]):
+    if type(q_in) == Connection:
+        return q_in.recv()  # type: ignore
+    return q_in.get()  # type: ignore
+
+
 def converter_process(
     q_in: typing.Union[mp.Queue, Connection],
     q_out: mp.Queue,
@@ -42,28 +50,34 @@ def converter_process(
         skip_edge_sampler (bool): skip generation of edge alias tables.
         watermark (optional[int]): latest known timestamp for temporal graphs.
     """
-    if isinstance(decoder, type):
-        decoder = decoder()
+    line = None
+    try:
+        if isinstance(decoder, type):
+            decoder = decoder()
 
-    binary_writer = writers.BinaryWriter(
-        str(folder),
-        suffix,
-        skip_node_sampler,
-        skip_edge_sampler,
-        watermark,
-    )
-    while True:
-        if type(q_in) == Connection:
-            line = q_in.recv()  # type: ignore
-        else:
-            line = q_in.get()  # type: ignore
+        binary_writer = writers.BinaryWriter(
+            str(folder),
+            suffix,
+            skip_node_sampler,
+            skip_edge_sampler,
+            watermark,
+        )
+        while True:
+            line = _next_line(q_in)
+            if line == FLAG_ALL_DONE:
+                break
 
-        if line == FLAG_ALL_DONE:
-            break
+            binary_writer.add(decoder.decode(line))  # type: ignore
 
-        binary_writer.add(decoder.decode(line))  # type: ignore
+        binary_writer.close()
+    except Exception:
+        error = traceback.format_exc()
+        # Keep reading, dispatcher might be waiting for a free slot in the input.
+        while line != FLAG_ALL_DONE:
+            line = _next_line(q_in)
+        q_out.put((FLAG_WORKER_FAILED, error))
+        return
 
-    binary_writer.close()
     q_out.put(
         (
             FLAG_WORKER_FINISHED_PROCESSING,
diff --git a/src/python/deepgnn/graph_engine/snark/dispatcher.py b/src/python/deepgnn/graph_engine/snark/dispatcher.py
index 74c9e2a..9558947 100755
--- a/src/python/deepgnn/graph_engine/snark/dispatcher.py
+++ b/src/python/deepgnn/graph_engine/snark/dispatcher.py
@@ -17,6 +17,7 @@ from deepgnn import get_logger
 from deepgnn.graph_engine.snark.converter.process import (
     converter_process,
     FLAG_ALL_DONE,
+    FLAG_WORKER_FAILED,
     FLAG_WORKER_FINISHED_PROCESSING,
     PROCESS_PRINT_INTERVAL,
 )
@@ -156,6 +157,8 @@ class PipeDispatcher(Dispatcher):
 
         for _ in range(self.parallel):
             flag, output = self.q_out.get()
+            if flag == FLAG_WORKER_FAILED:
+                raise RuntimeError(f"Failed to convert graph: {output}")
             self.node_count += output["node_count"]
             self.edge_count += output["edge_count"]
             self.node_type_num = max(self.node_type_num, output["node_type_count"])
@@ -335,6 +338,8 @@ class QueueDispatcher(Dispatcher):
 
         for _ in self.active_partitions:
             flag, output = self.q_out.get()
+            if flag == FLAG_WORKER_FAILED:
+                raise RuntimeError(f"Failed to convert graph: {output}")
             self.node_count += output["node_count"]
             self.edge_count += output["edge_count"]
             self.node_type_num = max(self.node_type_num, output["node_type_count"])
-- 
2.43.0


From c10cd6651f40e122a83f91c74b07e7fc31f4587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:19:37 +0000
Subject: [PATCH 20/95] fix: make QueueDispatcher work with threads

---
 src/python/deepgnn/graph_engine/snark/dispatcher.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/dispatcher.py b/src/python/deepgnn/graph_engine/snark/dispatcher.py
index 9558947..8ea3a7c 100755
--- a/src/python/deepgnn/graph_engine/snark/dispatcher.py
+++ b/src/python/deepgnn/graph_engine/snark/dispatcher.py
@@ -276,6 +276,7 @@ class QueueDispatcher(Dispatcher):
         self.skip_node_sampler = skip_node_sampler
         self.skip_edge_sampler = skip_edge_sampler
         process = process or converter_process
+        self.use_threads = use_threads
         parallel_func = mp.Process  # type: ignore
         if use_threads:
             parallel_func = threading.Thread  # type: ignore
@@ -332,9 +333,13 @@ class QueueDispatcher(Dispatcher):
 
     def join(self):
         """Wrapup conversion."""
+        if self.use_threads:
+            # idle threads can't be terminated, so let them finish.
+            self.active_partitions = set(range(self.num_partitions))
         for i in self.active_partitions:
             self.q_in[i].put(FLAG_ALL_DONE)
-            self.q_in[i].close()
+            if not self.use_threads:
+                self.q_in[i].close()
 
         for _ in self.active_partitions:
             flag, output = self.q_out.get()
@@ -389,8 +394,9 @@ class QueueDispatcher(Dispatcher):
                     ):
                         pass
 
-        for p in self.processes:
-            p.terminate()
+        if not self.use_threads:
+            for p in self.processes:
+                p.terminate()
 
     def prop(self, name: str) -> typing.Any:
         """Properties relevant for conversion.
-- 
2.43.0


From 084c9fbe328933726f45f01664dab73e15ed9265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:59 +0000
Subject: [PATCH 21/95] fix: remove metadata of a previous conversion before
 overwriting its files

---
 .../deepgnn/graph_engine/snark/convert.py     | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index dfe8877..66425a4 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -100,6 +100,10 @@ class MultiWorkersConverter:
         if self.partition_offset + self.partition_count > partition_count:
             self.partition_count = partition_count - self.partition_offset
 
+        # metadata from a previous conversion should not describe incomplete files.
+        for name in [self._meta_path(), "{}/meta.json".format(self.output_dir)]:
+            self._remove_file(name)
+
         if self.dispatcher is None and not self._debug:
             # when converting data in HDFS make sure to turn it off: https://hdfs3.readthedocs.io/en/latest/limitations.html
             use_threads = True
@@ -206,15 +210,23 @@ class MultiWorkersConverter:
         mjson["edge_count_per_type"] = edge_count_per_type
         mjson["watermark"] = -1 if self.watermark is None else self.watermark
 
-        with fs.open(
-            "{}/meta{}.json".format(
-                self.output_dir,
-                "" if self.worker_count == 1 else f"_{self.worker_index}",
-            ),
-            "w",
-        ) as file:
+        with fs.open(self._meta_path(), "w") as file:
             file.write(json.dumps(mjson))
 
+    def _meta_path(self) -> str:
+        return "{}/meta{}.json".format(
+            self.output_dir,
+            "" if self.worker_count == 1 else f"_{self.worker_index}",
+        )
+
+    def _remove_file(self, name: str):
+        fs, _ = get_fs(self.output_dir)
+        try:
+            if fs.exists(name):
+                fs.rm(name)
+        except FileNotFoundError:
+            pass  # already removed by another worker
+
 
 if __name__ == "__main__":
     # import here for special usage of the module.
-- 
2.43.0


From 4eed1b838df7f67de82a0f96af9e781ee918560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:06 +0000
Subject: [PATCH 22/95] fix: keep zero timestamps of nodes and edges instead of
 treating them as missing

---
 .../deepgnn/graph_engine/snark/converter/writers.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/converter/writers.py b/src/python/deepgnn/graph_engine/snark/converter/writers.py
index 0ea7a9d..7515f75 100644
--- a/src/python/deepgnn/graph_engine/snark/converter/writers.py
+++ b/src/python/deepgnn/graph_engine/snark/converter/writers.py
@@ -102,8 +102,8 @@ class BinaryWriter:
                         self.node_type_count.append(0)
                     self.node_type_num = type_num_value
                 # Fill defaults for a new node
-                node_created_at = created_at or 0
-                node_removed_at = removed_at or -1
+                node_created_at = 0 if created_at is None else created_at
+                node_removed_at = -1 if removed_at is None else removed_at
                 self.node_writer.add(
                     src,
                     typ,
@@ -146,8 +146,8 @@ class BinaryWriter:
                     or node_removed_at == -1
                     or removed_at <= node_removed_at
                 ), f"Edge ({src}, {dst}, {typ}) was deleted[{removed_at}] after source node[{node_removed_at}]."
-                created_at = created_at or node_created_at
-                removed_at = removed_at or node_removed_at
+                created_at = node_created_at if created_at is None else created_at
+                removed_at = node_removed_at if removed_at is None else removed_at
                 self.edge_writer.add(
                     dst,
                     typ,
-- 
2.43.0


From e92a8cafa143f41d3c644ffa0989792a7846057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:06 +0000
Subject: [PATCH 23/95] fix: reject edges that are never removed when their
 source node is

---
 src/python/deepgnn/graph_engine/snark/converter/writers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/converter/writers.py b/src/python/deepgnn/graph_engine/snark/converter/writers.py
index 7515f75..31ce2f3 100644
--- a/src/python/deepgnn/graph_engine/snark/converter/writers.py
+++ b/src/python/deepgnn/graph_engine/snark/converter/writers.py
@@ -144,7 +144,7 @@ class BinaryWriter:
                 assert (
                     removed_at is None
                     or node_removed_at == -1
-                    or removed_at <= node_removed_at
+                    or -1 < removed_at <= node_removed_at
                 ), f"Edge ({src}, {dst}, {typ}) was deleted[{removed_at}] after source node[{node_removed_at}]."
                 created_at = node_created_at if created_at is None else created_at
                 removed_at = node_removed_at if removed_at is None else removed_at
-- 
2.43.0


From 658749776b5b41780cc9e13719eb88a2edccc612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:06 +0000
Subject: [PATCH 24/95] fix: use creation time of the owner for feature
 versions without one

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index d70d87c..c4d175a 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -338,8 +338,10 @@ class JsonDecoder(Decoder):
         count = data[0:4].view(dtype=np.int32)
         count[0] = interval_count
         temporal_metadata = data[4:].view(dtype=np.int64)
-        for idx, it in enumerate(sorted(item, key=lambda x: x["created_at"])):
-            temporal_metadata[idx] = int(it["created_at"])
+        for idx, it in enumerate(
+            sorted(item, key=lambda x: x.get("created_at", created_at))
+        ):
+            temporal_metadata[idx] = int(it.get("created_at", created_at))
             temporal_metadata[idx + interval_count] = data.size
             vals = np.array(it["values"], dtype=self.convert_map[key]).view(
                 dtype=np.byte
@@ -433,7 +435,7 @@ class JsonDecoder(Decoder):
             yield edge["src_id"], edge["dst_id"], edge["edge_type"], edge[
                 "weight"
             ], created_at, removed_at, self._pull_features(
-                edge, node_created_at, node_removed_at
+                edge, created_at, removed_at
             )
 
 
-- 
2.43.0


From aed0f95ac7fb74bdbe3dd79108db4c1c0ad65913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:00:39 +0000
Subject: [PATCH 25/95] fix: register clients before starting servers so that
 nobody stops too early

---
 .../graph_engine/backends/snark/client.py     | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 4791eea..330d31e 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -109,6 +109,17 @@ class SnarkDistributedBackend(GraphEngineBackend):
             )
 
         os.makedirs(sync_dir, exist_ok=True)
+        # Register a client first, so that servers of other workers will wait for it to stop.
+        assert client_rank is not None, "Client rank should be always initialized"
+        self._client = SynchronizedClient(  # type: ignore
+            sync_dir,
+            client_rank,
+            len(options.servers),
+            options.ge_start_timeout,
+            DistributedClient,
+            options.servers,
+            options.ssl_cert,
+        )
         if server_index >= 0:
             self._server = SynchronizedServer(
                 sync_dir,
@@ -124,16 +135,6 @@ class SnarkDistributedBackend(GraphEngineBackend):
                 config_path=options.config_path,
                 stream=options.stream,
             )
-        assert client_rank is not None, "Client rank should be always initialized"
-        self._client = SynchronizedClient(  # type: ignore
-            sync_dir,
-            client_rank,
-            len(options.servers),
-            options.ge_start_timeout,
-            DistributedClient,
-            options.servers,
-            options.ssl_cert,
-        )
 
     def _check_servers_option(
         self,
@@ -148,22 +149,22 @@ class SnarkDistributedBackend(GraphEngineBackend):
         address_folder = os.path.join(options.model_dir, "sync", "addresses")
         os.makedirs(sync_folder, exist_ok=True)
         os.makedirs(address_folder, exist_ok=True)
-        server = SynchronizedServer(
+        client = SynchronizedClient(
             sync_folder,
             client_rank,
+            world_size,
             options.ge_start_timeout,
-            _AddressFinder,
+            _AddressReader,
             address_folder,
-            client_rank,
-            server_idx,
         )
-        client = SynchronizedClient(
+        server = SynchronizedServer(
             sync_folder,
             client_rank,
-            world_size,
             options.ge_start_timeout,
-            _AddressReader,
+            _AddressFinder,
             address_folder,
+            client_rank,
+            server_idx,
         )
         options.servers = client.client.servers()
         client.reset()
-- 
2.43.0


From 5132a6cb8b8b478a0f1aa93ef3a57becd9e4b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:00:39 +0000
Subject: [PATCH 26/95] fix: let clients and servers reset after a failed start

---
 src/python/deepgnn/graph_engine/backends/snark/synchronized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index c2e5192..45886d9 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -42,7 +42,7 @@ def _check_lock_file(folder: str, index: int, extension: str):
 
 def _delete_lock_file(folder: str, index: int, extension: str):
     path = pathlib.Path(folder, f"snark_{index}.{extension}")
-    os.remove(path)
+    path.unlink(missing_ok=True)
 
 
 class SupportsReset:
-- 
2.43.0


From ddd89d889617d0d44a09dcbbeaba3bbc75625086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:00:39 +0000
Subject: [PATCH 27/95] fix: reset servers in their processes and wait for them
 to stop

---
 .../deepgnn/graph_engine/backends/snark/synchronized.py    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index 45886d9..621917a 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -146,6 +146,7 @@ class _ServerProcess(mp.Process):
         super(_ServerProcess, self).__init__()
         self.id = index
         self.sync_path = sync_path
+        self.original_pid = os.getpid()
         self._ktr = lambda: klass(*args, **kwargs)
         self._server: Optional[SupportsReset] = None
         self._stop_event = mp.Event()
@@ -186,13 +187,15 @@ class _ServerProcess(mp.Process):
         _create_lock_file(self.sync_path, self.id, "server")
         self._stop_event.wait()
         get_logger().info(f"Shutting down server #{self.id}")
+        self._server.reset()
 
     def join(self, timeout: Optional[float] = None):
         """Stop the GE server."""
         self._wait_for_clients(timeout)
         self._stop_event.set()
-        if self._server is not None:
-            self._server.reset()
+        # The server lives in the child process and is reset there.
+        if os.getpid() == self.original_pid:
+            super(_ServerProcess, self).join(timeout)
 
 
 class SynchronizedServer:
-- 
2.43.0


From a1162be19313cd28b3d76cf75f02efe16bdf2553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:19:03 +0000
Subject: [PATCH 28/95] fix: stop address servers of a worker when some workers
 are missing

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 330d31e..7a3004a 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -166,9 +166,11 @@ class SnarkDistributedBackend(GraphEngineBackend):
             client_rank,
             server_idx,
         )
-        options.servers = client.client.servers()
-        client.reset()
-        server.reset()
+        try:
+            options.servers = client.client.servers()
+        finally:
+            client.reset()
+            server.reset()
         get_logger().warning(
             f"GE servers were not specified. Starting them on {options.servers}"
         )
-- 
2.43.0


From 5d04e47eb9941573e34548d4ea5c83b810cda5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:41 +0000
Subject: [PATCH 29/95] fix: read number of partitions from json metadata to
 pick number of servers

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 7a3004a..99bcf2e 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -186,9 +186,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
             # TODO(alsamylk): provide a better metadata reader in snark
             with open(os.path.join(options.data_dir, "meta.json"), "r") as meta:
                 # Use a simple heuristic: number of original partitions, but cap it at 4
-                # to avoid extreme cases. Partition count is written on 7th line.
-                lines = meta.readlines()
-                options.num_ge = min(int(lines[7]), 4)
+                # to avoid extreme cases.
+                options.num_ge = min(len(json.load(meta)["partitions"]), 4)
 
         # Use explicitly set index if it was provided
         if options.server_idx is not None:
-- 
2.43.0


From 3903c299db03cc559483c3e45f16fd962904a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:04 +0000
Subject: [PATCH 30/95] fix: keep order of worker hosts given by a caller

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 99bcf2e..2bb01bc 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -292,9 +292,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
 
     def _extract_server_index(self, workers: List[str], index: int) -> Optional[int]:
         curr_worker = workers[index]
-        workers.sort()
         seen_hosts = set()
-        for worker in workers:
+        for worker in sorted(workers):
             host = worker.rsplit(":", 1)[0]
             if curr_worker != worker:
                 seen_hosts.add(host)
-- 
2.43.0


From d120b4b351a5c38e19e64d344e3ea081932c8ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:04 +0000
Subject: [PATCH 31/95] fix: order addresses of servers by their index

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 2bb01bc..3c6f5b5 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -398,7 +398,7 @@ class _AddressFinder:
 # _AddressReader must be wrapped by SynchronizedClient to wait all servers.
 class _AddressReader:
     def __init__(self, path: str):
-        self._servers: List[str] = []
+        servers: List[Tuple[int, str]] = []
         for file_name in glob.glob(os.path.join(path, "*.servername")):
             with open(file_name, "r", newline=os.linesep) as f:
                 # First line is the address and the second - server index.
@@ -406,7 +406,9 @@ class _AddressReader:
                 assert len(raw) == 2
                 server_idx = int(raw[1])
                 if server_idx >= 0:
-                    self._servers.append(raw[0].rstrip(os.linesep))
+                    servers.append((server_idx, raw[0].rstrip(os.linesep)))
+        # Order of files in a folder is arbitrary, servers are addressed by their index.
+        self._servers: List[str] = [address for _, address in sorted(servers)]
 
     def servers(self) -> List[str]:
         return self._servers
-- 
2.43.0


From 9b0ec1f77b69f517ad7db8393f059ac0ac0891ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:04 +0000
Subject: [PATCH 32/95] fix: load requested partitions in local graph client

---
 src/python/deepgnn/graph_engine/snark/local.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 58dea18..78706e9 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -37,9 +37,7 @@ class Client(Graph):
         if len(partitions) == 0:
             self.logger.info("Partitions not set, defaulting to [0]")
             partitions = [0]
-        partitions_with_paths = [
-            (path, partition) for partition in range(len(partitions))
-        ]
+        partitions_with_paths = [(path, partition) for partition in partitions]
         self.logger.info(
             f"Graph data path: {path}. Partitions {partitions}. Storage type {storage_type}. Config path {config_path}. Stream {stream}."
         )
-- 
2.43.0


From a4c97b5da7527a1e15fed6c1fa71a8dc2b3d6cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:15 +0000
Subject: [PATCH 33/95] fix: download edge timestamps of temporal graphs

---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 6b84c13..4ba6a0a 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -83,6 +83,13 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
                 )
             )
 
+        if graph_meta.watermark >= 0:
+            lpath.append(
+                mt._get_element_timestamps_path(
+                    mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
+                )
+            )
+
         # Use pattern matching to skip downloading alias tables if they were not created
         lpath.append(
             mt._get_element_alias_path(
-- 
2.43.0


From fcfa16aa68343d76a50d5ff409e383c19e9ba2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:33 +0000
Subject: [PATCH 34/95] fix: download every partition from the file system it
 is stored on

---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 4ba6a0a..08cf5ae 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -39,13 +39,13 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
     data_path = tempfile.TemporaryDirectory(suffix="_snark")
     fs.get(mt._get_meta_path(path, fs.sep), mt._get_meta_path(data_path.name))
     graph_meta = mt.Meta(data_path.name)
-    lpath = []
     for i in range(len(partitions)):
         partition_path, partition_index = partitions[i]
         fs, _ = get_fs(partition_path)
         if isinstance(fs, LocalFileSystem):
             continue
 
+        lpath = []
         lpath.append(mt._get_node_map_path(partition_path, partition_index, -1, fs.sep))
         lpath.append(
             mt._get_neighbors_index_path(partition_path, partition_index, -1, fs.sep)
@@ -104,6 +104,6 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
         )
 
         partitions[i] = (data_path.name, partition_index)
+        fs.get(lpath, data_path.name)
 
-    fs.get(lpath, data_path.name)
     return GraphPath(data_path)
-- 
2.43.0


From 44a722ba909919c81088fcc43b0be5353ff55cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:50:30 +0000
Subject: [PATCH 35/95] fix: use right window size to generate skipgrams

---
 src/python/deepgnn/graph_engine/graph_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_ops.py b/src/python/deepgnn/graph_engine/graph_ops.py
index 231f5c7..aad957c 100644
--- a/src/python/deepgnn/graph_engine/graph_ops.py
+++ b/src/python/deepgnn/graph_engine/graph_ops.py
@@ -82,7 +82,7 @@ def gen_skipgrams(
         # each path
         for j in range(0, path_len):
             left_start = max(0, j - left_win_size)
-            right_end = min(path_len - 1, j + left_win_size)
+            right_end = min(path_len - 1, j + right_win_size)
             for k in range(left_start, right_end + 1):
                 if k == j:
                     continue
-- 
2.43.0


From 5719368bdce27c4d4ffd658a554d79f4ff3d36d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:50:30 +0000
Subject: [PATCH 36/95] fix: count self loops once in adjacency matrix of a sub
 graph

---
 src/python/deepgnn/graph_engine/graph_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_ops.py b/src/python/deepgnn/graph_engine/graph_ops.py
index aad957c..950b34c 100644
--- a/src/python/deepgnn/graph_engine/graph_ops.py
+++ b/src/python/deepgnn/graph_engine/graph_ops.py
@@ -174,6 +174,6 @@ def sub_graph(
 
         # add self loop
         if self_loop:
-            adj += np.eye(n)
+            np.fill_diagonal(adj, 1)
 
         return unique_nodes, adj, src_nodes_idx
-- 
2.43.0


From 94b35a343ad7f5429eb0039a38dbfad308e4cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:51:37 +0000
Subject: [PATCH 37/95] fix: pick nodes by their position to estimate average
 clustering

---
 .../deepgnn/graph_engine/snark/preprocess/sampler/metric.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
index 1a12496..04b4697 100644
--- a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
+++ b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
@@ -51,8 +51,8 @@ def average_clustering(input_graph: nx.digraph, trials: int) -> float:
     g = nx.to_undirected(input_graph)
     n = len(g)
     triangles = 0
-    nodes = g.nodes()
-    for i in [random.randint(0, n) for _ in range(trials)]:
+    nodes = list(g.nodes())
+    for i in [random.randint(0, n - 1) for _ in range(trials)]:
         nbrs = list(g[nodes[i]])
         if len(nbrs) < 2:
             continue
-- 
2.43.0


From 9a23dccb31931eedd18776421a57fd8567eea44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:50 +0000
Subject: [PATCH 38/95] fix: read feature data in release builds

The feature files were read inside an assert, so builds with NDEBUG kept
zeros instead of the stored values.
---
 src/cc/lib/graph/storage.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/storage.h b/src/cc/lib/graph/storage.h
index 2699159..79eeb68 100644
--- a/src/cc/lib/graph/storage.h
+++ b/src/cc/lib/graph/storage.h
@@ -85,7 +85,10 @@ template <typename T> struct MemoryStorage : BaseStorage<T>
         m_data.resize(size);
 
         snark::platform_fseek(file_ptr, 0L, SEEK_SET);
-        assert(size == fread(m_data.data(), 1, size, file_ptr) && "Failed to read node features data");
+        if (size != fread(m_data.data(), 1, size, file_ptr))
+        {
+            m_logger->log_fatal("Failed to read node features data");
+        }
 
         fclose(file_ptr);
     }
-- 
2.43.0


From cebcec38f96f463e2cb0d3f2fe7dddff6a6ba1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:28 +0000
Subject: [PATCH 39/95] fix: allow empty reads at the end of feature files on
 disk

An empty feature stored last in a file was requested past the end and
terminated the process.
---
 src/cc/lib/graph/storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/lib/graph/storage.h b/src/cc/lib/graph/storage.h
index 79eeb68..e601a11 100644
--- a/src/cc/lib/graph/storage.h
+++ b/src/cc/lib/graph/storage.h
@@ -319,6 +319,8 @@ template <typename T> struct DiskStorage final : BaseStorage<T>
             throw std::out_of_range("File not open!");
         if (feof(file_ptr))
             throw std::out_of_range("File closed unexpectedly!");
+        if (size == 0)
+            return output_ptr;
         if (offset >= m_size)
             throw std::out_of_range("Offset out of range!");
 
-- 
2.43.0


From 20fcaa02d695ba7c43e262c0d9e1083363d9d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:28 +0000
Subject: [PATCH 40/95] fix: map nodes to the right files of a partition with
 several file sets

---
 src/cc/lib/graph/graph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 95de988..8da0161 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -96,7 +96,7 @@ Graph::Graph(Metadata metadata, std::vector<std::string> paths, std::vector<uint
         for (size_t i = 0; i < suffixes.size(); ++i)
         {
             m_partitions.emplace_back(m_metadata, paths[partition_index], suffixes[i], storage_type);
-            ReadNodeMap(paths[partition_index], suffixes[i], partition_index);
+            ReadNodeMap(paths[partition_index], suffixes[i], m_partitions.size() - 1);
         }
     }
 }
-- 
2.43.0


From 3a553bcbe7467d4aa77ffa5b5f94a4cbd42edc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:28 +0000
Subject: [PATCH 41/95] fix: return default type for nodes known only as edge
 sources

---
 src/cc/lib/graph/graph.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 8da0161..9b69503 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -125,6 +125,10 @@ void Graph::GetNodeType(std::span<const NodeId> node_ids, std::span<Type> output
                     break;
                 }
             }
+            if (*curr_type == snark::PLACEHOLDER_NODE_TYPE)
+            {
+                *curr_type = default_type;
+            }
         }
         ++curr_type;
     }
-- 
2.43.0


From 7d5e5b5e7cb0d15693b68b4251b0f597f591a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:28 +0000
Subject: [PATCH 42/95] fix: match requested edge types after a type the node
 does not have

A requested type smaller than the next stored type made the scan skip
that stored type, so its edges were missing from lists, counts and samples.
---
 src/cc/lib/graph/partition.cc | 58 +++++++++--------------------------
 1 file changed, 14 insertions(+), 44 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index e8da9aa..0901bbe 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -668,17 +668,11 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
     size_t curr_type = 0;
     for (size_t i = offset; i < offset + nb_count; ++i)
     {
-        for (; curr_type < edge_types.size() && edge_types[curr_type] < m_edge_types[i]; ++curr_type)
+        while (i < offset + nb_count && curr_type < edge_types.size() && edge_types[curr_type] != m_edge_types[i])
         {
+            ++(edge_types[curr_type] < m_edge_types[i] ? curr_type : i);
         }
-        if (curr_type == edge_types.size())
-        {
-            break;
-        }
-        for (; i < offset + nb_count && edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == offset + nb_count)
+        if (i == offset + nb_count || curr_type == edge_types.size())
         {
             break;
         }
@@ -1133,17 +1127,11 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
     const auto last_type = offset + nb_count;
     for (size_t i = offset; i < last_type; ++i)
     {
-        for (; curr_type < in_edge_types.size() && in_edge_types[curr_type] < m_edge_types[i]; ++curr_type)
+        while (i < last_type && curr_type < in_edge_types.size() && in_edge_types[curr_type] != m_edge_types[i])
         {
+            ++(in_edge_types[curr_type] < m_edge_types[i] ? curr_type : i);
         }
-        if (curr_type == in_edge_types.size())
-        {
-            break;
-        }
-        for (; i < last_type && in_edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == last_type)
+        if (i == last_type || curr_type == in_edge_types.size())
         {
             break;
         }
@@ -1215,18 +1203,11 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
     const auto overwrite_rate = total_weight / out_partition;
     for (size_t i = offset; i < offset + nb_count; ++i)
     {
-        for (; curr_type < in_edge_types.size() && in_edge_types[curr_type] < m_edge_types[i]; ++curr_type)
-        {
-        }
-        if (curr_type == in_edge_types.size())
-        {
-            break;
-        }
-
-        for (; i < last_type && in_edge_types[curr_type] > m_edge_types[i]; ++i)
+        while (i < last_type && curr_type < in_edge_types.size() && in_edge_types[curr_type] != m_edge_types[i])
         {
+            ++(in_edge_types[curr_type] < m_edge_types[i] ? curr_type : i);
         }
-        if (i == last_type)
+        if (i == last_type || curr_type == in_edge_types.size())
         {
             break;
         }
@@ -1375,25 +1356,14 @@ bool advance_edge_types(size_t &in_edge_type_index, size_t &neighbor_type_index,
                         const std::span<const Type> &in_edge_types, const std::vector<Type> &neighbor_types,
                         size_t last_type)
 {
-    for (; in_edge_type_index < in_edge_types.size() &&
-           in_edge_types[in_edge_type_index] < neighbor_types[neighbor_type_index];
-         ++in_edge_type_index)
-    {
-    }
-    if (in_edge_type_index == in_edge_types.size())
-    {
-        return false;
-    }
-    for (; neighbor_type_index < last_type && in_edge_types[in_edge_type_index] > neighbor_types[neighbor_type_index];
-         ++neighbor_type_index)
-    {
-    }
-    if (neighbor_type_index >= last_type)
+    while (neighbor_type_index < last_type && in_edge_type_index < in_edge_types.size() &&
+           in_edge_types[in_edge_type_index] != neighbor_types[neighbor_type_index])
     {
-        return false;
+        ++(in_edge_types[in_edge_type_index] < neighbor_types[neighbor_type_index] ? in_edge_type_index
+                                                                                   : neighbor_type_index);
     }
 
-    return neighbor_types[neighbor_type_index] == in_edge_types[in_edge_type_index];
+    return neighbor_type_index < last_type && in_edge_type_index < in_edge_types.size();
 }
 
 void Partition::UniformSampleNeighborWithReplacement(bool return_edge_created_ts, uint64_t internal_id,
-- 
2.43.0


From fda7d1af84d7f1db83a3e583c214e8ce569e54f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:33:34 +0000
Subject: [PATCH 43/95] fix: do not read missing edge feature index for string
 features

---
 src/cc/lib/graph/partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 0901bbe..57c9dba 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1047,7 +1047,7 @@ void Partition::GetEdgeStringFeature(uint64_t internal_src_node_id, NodeId input
 
     auto file_ptr = m_edge_features->start();
     auto has_edge_features = EdgeFeatureOffset(internal_src_node_id, input_edge_dst, input_edge_type);
-    if (!has_edge_features.has_value())
+    if (!has_edge_features.has_value() || m_edge_feature_offset.empty() || m_edge_feature_index.empty())
     {
         return;
     }
-- 
2.43.0


From 805dd2196835377dcbe21144efac5954602bbab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:09 +0000
Subject: [PATCH 44/95] fix: do not divide by zero for feature requests without
 nodes or edges

---
 src/cc/lib/graph/graph.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 9b69503..4e9f7bd 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -142,6 +142,11 @@ void Graph::GetNodeFeature(std::span<const NodeId> node_ids, std::span<const Tim
                node_ids.size() ==
            output.size());
 
+    if (node_ids.empty())
+    {
+        return;
+    }
+
     const size_t features_size = output.size() / node_ids.size();
     size_t feature_offset = 0;
     absl::InlinedVector<Timestamp, 1024> feature_flags(features.size());
@@ -265,6 +270,11 @@ void Graph::GetEdgeFeature(std::span<const NodeId> input_edge_src, std::span<con
                input_edge_src.size() ==
            output.size());
 
+    if (input_edge_src.empty())
+    {
+        return;
+    }
+
     const size_t feature_size = output.size() / input_edge_src.size();
     size_t feature_offset = 0;
     size_t edge_offset = 0;
-- 
2.43.0


From 6949cc50da58ea791690c2048035cf064d667126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:37:03 +0000
Subject: [PATCH 45/95] fix: map nodes to the right files of a partition with
 several file sets on servers

---
 src/cc/lib/distributed/graph_engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index dd75504..9d8b5ce 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -86,7 +86,7 @@ GraphEngineServiceImpl::GraphEngineServiceImpl(snark::Metadata metadata, std::ve
         for (size_t i = 0; i < suffixes.size(); ++i)
         {
             m_partitions.emplace_back(m_metadata, paths[partition_index], suffixes[i], storage_type);
-            ReadNodeMap(paths[partition_index], suffixes[i], partition_index);
+            ReadNodeMap(paths[partition_index], suffixes[i], m_partitions.size() - 1);
         }
     }
 }
-- 
2.43.0


From df4922bb56d33367077817206fdc29004bc4feab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:37:03 +0000
Subject: [PATCH 46/95] fix: do not divide by zero for distributed feature
 requests without nodes or edges

---
 src/cc/lib/distributed/client.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 0299b09..2680364 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -291,6 +291,11 @@ void GRPCClient::GetNodeFeature(std::span<const NodeId> node_ids, std::span<cons
 
     NodeFeaturesRequest request;
     const auto node_len = node_ids.size();
+    if (node_len == 0)
+    {
+        return;
+    }
+
     *request.mutable_node_ids() = {std::begin(node_ids), std::end(node_ids)};
     *request.mutable_timestamps() = {std::begin(timestamps), std::end(timestamps)};
     size_t curr_feature_prefix = 0;
@@ -400,6 +405,11 @@ void GRPCClient::GetEdgeFeature(std::span<const NodeId> edge_src_ids, std::span<
     assert(len == edge_dst_ids.size());
     assert(output.size() % len == 0);
 
+    if (len == 0)
+    {
+        return;
+    }
+
     EdgeFeaturesRequest request;
     *request.mutable_node_ids() = {std::begin(edge_src_ids), std::end(edge_src_ids)};
     request.mutable_node_ids()->Add(std::begin(edge_dst_ids), std::end(edge_dst_ids));
-- 
2.43.0


From 8efb1d625d0bd26fb52ffb1f963abc66c649e3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:43:52 +0000
Subject: [PATCH 47/95] fix: find temporal edges valid at the requested time in
 any order of intervals

---
 src/cc/lib/graph/partition.cc | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 57c9dba..ede8940 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -692,37 +692,22 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
 namespace
 {
 
-auto find_start(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
-{
-    if (range.empty())
-    {
-        return std::end(range);
-    }
-
-    if (range.front().first <= ts && (range.front().second > ts || range.front().second == -1))
-    {
-        return std::begin(range);
-    }
+using cspan_it = std::span<const std::pair<Timestamp, Timestamp>>::iterator;
 
-    ts = std::max(ts, range.front().second);
-    return std::lower_bound(
-        std::begin(range), std::end(range), ts,
-        [](const std::pair<Timestamp, Timestamp> &a, int x) { return a.second != -1 && a.second <= x; });
+bool is_valid(const std::pair<Timestamp, Timestamp> &interval, Timestamp ts)
+{
+    return interval.first <= ts && (interval.second > ts || interval.second == -1);
 }
 
-using cspan_it = std::span<const std::pair<Timestamp, Timestamp>>::iterator;
+// Edges of the same type are not ordered by their removal time, so we can't use binary search.
+cspan_it find_start(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
+{
+    return std::find_if(std::begin(range), std::end(range), [ts](const auto &a) { return is_valid(a, ts); });
+}
 
 cspan_it find_last(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
 {
-    if (range.front().first > ts)
-    {
-        return std::begin(range);
-    }
-
-    auto last = range.front().second;
-    return std::upper_bound(
-        std::begin(range), std::end(range), ts,
-        [last](Timestamp ts, const std::pair<Timestamp, Timestamp> &a) { return a.second > last || a.first > ts; });
+    return std::find_if_not(std::begin(range), std::end(range), [ts](const auto &a) { return is_valid(a, ts); });
 }
 
 } // anonymous namespace
-- 
2.43.0


From 98cd4e896577e403977cf69720c7d4ae34cf966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:43:52 +0000
Subject: [PATCH 48/95] fix: do not return edges removed at the requested time
 as last neighbors

---
 src/cc/lib/graph/partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index ede8940..8ffde25 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -820,7 +820,7 @@ size_t Partition::LastNCreatedNeighbors(bool return_edge_created_ts, uint64_t in
         for (size_t index = start; index < last; ++index)
         {
             auto &ts = m_edge_timestamps[index];
-            if ((ts.second != -1 && ts.second < timestamp) || ts.first > timestamp)
+            if ((ts.second != -1 && ts.second <= timestamp) || ts.first > timestamp)
             {
                 continue;
             }
-- 
2.43.0


From 2aa85e2ee749874eaf1d58f78bdcd2b95d17f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:43:52 +0000
Subject: [PATCH 49/95] fix: do not parse empty temporal features

---
 src/cc/lib/graph/partition.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 8ffde25..15099d5 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -35,6 +35,11 @@ std::tuple<uint64_t, uint64_t, Timestamp> deserialize_temporal_feature(uint64_t
                                                                        std::shared_ptr<snark::FilePtr> file_ptr,
                                                                        Timestamp timestamp)
 {
+    if (stored_size == 0)
+    {
+        return std::make_tuple(initial_offset, 0, -1);
+    }
+
     uint32_t timestamps_size = 0;
     auto timestamps_size_output = std::span(reinterpret_cast<uint8_t *>(&timestamps_size), 4);
     storage->read(initial_offset, timestamps_size_output.size(), std::begin(timestamps_size_output), file_ptr);
-- 
2.43.0


From 4b6aeb9af9e77b466096064370453beb3afe4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:43:52 +0000
Subject: [PATCH 50/95] fix: sample temporal neighbors without replacement from
 all valid intervals

---
 src/cc/lib/graph/partition.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 15099d5..b653577 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1463,6 +1463,7 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
             auto last = m_edge_type_offset[i + 1] - 1;
             ++last;
             auto timestamp_span = std::span(m_edge_timestamps).subspan(first, last - first);
+            auto global_offset = first;
             for (auto it = find_start(timestamp_span, node_ts.value());
                  it != std::end(timestamp_span) && !(it->second == -1 && it->first > node_ts.value());
                  it = find_start(timestamp_span, node_ts.value()))
@@ -1474,8 +1475,9 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
 
                 const auto stream_size = stream.size();
                 out_partition_count += stream_size;
-                auto dest_span = std::span(m_edge_destination).subspan(first + it_dist, stream_size);
-                auto ts_span = std::span(m_edge_timestamps).subspan(first + it_dist, stream_size);
+                const size_t local_offset = global_offset + it_dist;
+                auto dest_span = std::span(m_edge_destination).subspan(local_offset, stream_size);
+                auto ts_span = std::span(m_edge_timestamps).subspan(local_offset, stream_size);
                 sampler.add(stream_size,
                             [&dest_span, &out_nodes, &out_types, &out_edge_created_ts, ts_span,
                              tp = in_edge_types[curr_type], return_edge_created_ts](size_t pick, size_t offset) {
@@ -1494,6 +1496,7 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
                 }
                 const auto local_pos =
                     size_t((lst - std::begin(it_subspan)) + it_dist); // equivavlent of lst - std::begin(timestamp_span)
+                global_offset += local_pos;
                 timestamp_span = timestamp_span.subspan(local_pos);
             }
         }
-- 
2.43.0


From 0c37424d43103bc55ec46d4f2e0126b38de50d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:05 +0000
Subject: [PATCH 51/95] fix: keep string features of a node in order when they
 come from several partitions

---
 src/cc/lib/graph/partition.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index b653577..16ae8ae 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -641,16 +641,25 @@ void Partition::GetNodeStringFeature(uint64_t internal_node_id, std::optional<Ti
             continue;
         }
 
+        // Values of the following features might be already added by other partitions.
+        size_t next_values_size = 0;
+        for (size_t next = feature_index + 1; next < features.size(); ++next)
+        {
+            next_values_size += feature_flags[next] >= 0 ? out_dimensions[next] : 0;
+        }
+
         // Overwrite old string features.
+        auto value_pos = std::end(out_values) - next_values_size;
         if (feature_flags[feature_index] >= 0)
         {
-            const auto new_size = out_values.size() - out_dimensions[feature_index];
-            out_values.resize(new_size);
+            value_pos = out_values.erase(value_pos - out_dimensions[feature_index], value_pos);
         }
 
         feature_flags[feature_index] = feature_ts;
+        std::vector<uint8_t> value;
         deserialize_string_features(data_offset, stored_size, m_node_features, file_ptr, out_dimensions[feature_index],
-                                    out_values);
+                                    value);
+        out_values.insert(value_pos, std::begin(value), std::end(value));
     }
 }
 
-- 
2.43.0


From 28b407bc9e69187c08e8e0dab52431f8b1b42d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:06 +0000
Subject: [PATCH 52/95] fix: drop all coordinates of replaced versions of
 sparse features

---
 src/cc/lib/graph/partition.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 16ae8ae..a5c0cd4 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -576,8 +576,12 @@ void Partition::GetNodeSparseFeature(uint64_t internal_node_id, std::optional<Ti
         // Overwrite old string features.
         if (feature_flags[feature_index] >= 0)
         {
-            const auto new_indices_size = out_indices[feature_index].size() - out_dimensions[feature_index] - 1;
-            out_indices[feature_index].resize(new_indices_size);
+            auto &indices = out_indices[feature_index];
+            const size_t row_size = out_dimensions[feature_index] + 1;
+            while (!indices.empty() && indices[indices.size() - row_size] == prefix)
+            {
+                indices.resize(indices.size() - row_size);
+            }
             const auto new_values_size = out_values[feature_index].size() - values_sizes[feature_index];
             out_values[feature_index].resize(new_values_size);
         }
-- 
2.43.0


From 77db56f532d65f52338d3f21471b0c21199220f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:06 +0000
Subject: [PATCH 53/95] fix: match versions of string features from different
 servers

---
 src/cc/lib/distributed/graph_engine.cc | 16 ++++++----------
 src/cc/lib/graph/merger.h              |  4 +---
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index 9d8b5ce..8e12cb3 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -335,6 +335,7 @@ grpc::Status GraphEngineServiceImpl::GetNodeStringFeatures(::grpc::ServerContext
     auto *reply_dimensions = response->mutable_dimensions();
 
     reply_dimensions->Resize(int(features_size * nodes_size), 0);
+    response->mutable_timestamps()->Resize(int(features_size * nodes_size), -1);
     auto dimensions = std::span(reply_dimensions->mutable_data(), reply_dimensions->size());
     std::vector<uint8_t> values;
     absl::InlinedVector<Timestamp, 1024> feature_flags(features.size());
@@ -361,11 +362,8 @@ grpc::Status GraphEngineServiceImpl::GetNodeStringFeatures(::grpc::ServerContext
                 features, std::span(feature_flags), dims_span, values);
         }
 
-        if (std::any_of(std::begin(feature_flags), std::end(feature_flags),
-                        [](snark::Timestamp ts) { return ts >= 0; }))
-        {
-            response->mutable_timestamps()->Add(std::begin(feature_flags), std::end(feature_flags));
-        }
+        std::copy(std::begin(feature_flags), std::end(feature_flags),
+                  response->mutable_timestamps()->begin() + features_size * node_offset);
     }
 
     response->mutable_values()->append(std::begin(values), std::end(values));
@@ -385,6 +383,7 @@ grpc::Status GraphEngineServiceImpl::GetEdgeStringFeatures(::grpc::ServerContext
     const auto features_size = features.size();
     auto *reply_dimensions = response->mutable_dimensions();
     reply_dimensions->Resize(int(features_size * len), 0);
+    response->mutable_timestamps()->Resize(int(features_size * len), -1);
     auto dimensions = std::span(reply_dimensions->mutable_data(), reply_dimensions->size());
     std::vector<uint8_t> values;
     absl::InlinedVector<Timestamp, 1024> feature_flags(features.size());
@@ -409,11 +408,8 @@ grpc::Status GraphEngineServiceImpl::GetEdgeStringFeatures(::grpc::ServerContext
                 features, std::span(feature_flags), dimensions.subspan(features_size * edge_offset, features_size),
                 values);
         }
-        if (std::any_of(std::begin(feature_flags), std::end(feature_flags),
-                        [](snark::Timestamp ts) { return ts >= 0; }))
-        {
-            response->mutable_timestamps()->Add(std::begin(feature_flags), std::end(feature_flags));
-        }
+        std::copy(std::begin(feature_flags), std::end(feature_flags),
+                  response->mutable_timestamps()->begin() + features_size * edge_offset);
     }
 
     response->mutable_values()->append(std::begin(values), std::end(values));
diff --git a/src/cc/lib/graph/merger.h b/src/cc/lib/graph/merger.h
index 08661a0..b9c4024 100644
--- a/src/cc/lib/graph/merger.h
+++ b/src/cc/lib/graph/merger.h
@@ -143,7 +143,6 @@ void UpdateStringFeatureIndex(StringFeaturesReply &reply, std::mutex &mtx,
     }
 
     int64_t value_offset = 0;
-    int64_t ts_index = 0;
     for (int64_t feature_index = 0; feature_index < reply.dimensions().size(); ++feature_index)
     {
         const auto dim = reply.dimensions(feature_index);
@@ -153,8 +152,7 @@ void UpdateStringFeatureIndex(StringFeaturesReply &reply, std::mutex &mtx,
         }
 
         std::lock_guard lock(mtx);
-        const auto ts = reply.timestamps(ts_index);
-        ++ts_index;
+        const auto ts = reply.timestamps(feature_index);
         if (std::get<2>(response_index[feature_index]) <= ts)
         {
             response_index[feature_index] = {shard, value_offset, ts};
-- 
2.43.0


From ba99d41d1acff6e89b4f8f10e6cd014c4bb63bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:06 +0000
Subject: [PATCH 54/95] fix: return the newest version of sparse features from
 different servers

---
 src/cc/lib/graph/merger.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/cc/lib/graph/merger.h b/src/cc/lib/graph/merger.h
index b9c4024..f89718a 100644
--- a/src/cc/lib/graph/merger.h
+++ b/src/cc/lib/graph/merger.h
@@ -114,17 +114,18 @@ void UpdateSparseFeatureIndex(SparseFeaturesReply &reply, std::vector<snark::Spa
         {
             const auto item_index = reply.indices(node_offset);
             auto &response_index_item = response_index[item_index * feature_count + feature_index];
-            if (reply.timestamps(item_index * feature_count + feature_index) <= response_index_item.timestamp ||
-                (response_index_item.shard >= 0 && response_index_item.shard != int(shard)))
+            if (response_index_item.shard != int(shard))
             {
-                continue;
-            }
+                const auto ts = reply.timestamps(item_index * feature_count + feature_index);
+                if (ts <= response_index_item.timestamp)
+                {
+                    continue;
+                }
 
-            if (response_index_item.index_count == 0)
-            {
-                response_index_item.shard = shard;
-                response_index_item.index_offset = node_offset;
-                response_index_item.value_offset = value_offset;
+                response_index_item = {.shard = int(shard),
+                                       .index_offset = int(node_offset),
+                                       .value_offset = int(value_offset),
+                                       .timestamp = ts};
             }
             response_index_item.index_count += feature_dim;
             response_index_item.value_count += value_increment;
-- 
2.43.0


From fb89f059b1aa249eab1a906599b8f561caaeaf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:36 +0000
Subject: [PATCH 55/95] fix: do not write out of bounds for nodes with more
 neighbors than sampled

---
 src/cc/lib/graph/graph.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 4e9f7bd..390b676 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -552,8 +552,9 @@ void Graph::UniformSampleNeighbor(bool without_replacement, bool return_edge_cre
 
             if (fill_edge_ts_by_partition)
             {
-                std::fill(std::begin(out_nb_ts) + (timestamps.empty() ? 0 : neighbors_total_count[node_index]),
-                          std::end(out_nb_ts), snark::PLACEHOLDER_TIMESTAMP);
+                const auto found_count = std::min<uint64_t>(neighbors_total_count[node_index], count);
+                std::fill(std::begin(out_nb_ts) + (timestamps.empty() ? 0 : found_count), std::end(out_nb_ts),
+                          snark::PLACEHOLDER_TIMESTAMP);
             }
         }
     }
-- 
2.43.0


From 52fffeba7cdff698002c67509fe43e58d4740913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:07 +0000
Subject: [PATCH 56/95] fix: do not write edge times of uniform samples to a
 null pointer

---
 src/python/deepgnn/graph_engine/snark/client.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index c82129b..7dcf64c 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1090,11 +1090,9 @@ class MemoryGraph:
             result_nodes.ctypes.data_as(POINTER(c_int64)),
             result_types.ctypes.data_as(POINTER(c_int32)),
             (
-                None
-                if timestamps is None
-                or len(timestamps) == 0
-                or (not return_edge_created_ts)
-                else result_ts.ctypes.data_as(POINTER(c_int64))
+                result_ts.ctypes.data_as(POINTER(c_int64))
+                if return_edge_created_ts
+                else None
             ),
             c_int64(default_node),
             c_int32(default_type),
-- 
2.43.0


From 1246ca98d39732c19202303f2cd74bfee9fcd726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:07:29 +0000
Subject: [PATCH 57/95] fix: pass the default edge type to weighted neighbor
 sampling

---
 src/python/deepgnn/graph_engine/snark/local.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 78706e9..0fdc21a 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -118,6 +118,7 @@ class Client(Graph):
                 count,
                 default_node,
                 default_weight,
+                default_edge_type,
                 seed=int(random.getrandbits(64)),
                 timestamps=timestamps,
                 return_edge_created_ts=return_edge_created_ts,
-- 
2.43.0


From bc88536e4d76a5ecded5ad2b16c2e7692b338c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:30:04 +0000
Subject: [PATCH 58/95] fix: sample elements of a merged reservoir with equal
 probabilities

---
 src/cc/lib/graph/reservoir.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/reservoir.cc b/src/cc/lib/graph/reservoir.cc
index 6ceaa32..7407c7e 100644
--- a/src/cc/lib/graph/reservoir.cc
+++ b/src/cc/lib/graph/reservoir.cc
@@ -95,9 +95,11 @@ void sample_n(It first, It last, size_t n, snark::Xoroshiro128PlusGenerator &gen
     assert(n <= total_elements && "Sample size is larger than the range");
     // There is no need to swap the last element with itself.
     total_elements -= 1;
+    // An element may stay in place, unless all of them are taken and only the order is random.
+    const size_t shift = n > total_elements ? 1 : 0;
     for (size_t i = 0; i < total_elements; ++i)
     {
-        std::uniform_int_distribution<size_t> dist(i + 1, total_elements);
+        std::uniform_int_distribution<size_t> dist(i + shift, total_elements);
         std::swap(first[i], first[dist(gen)]);
     }
 }
-- 
2.43.0


From 9bf16cf058a67aa1a629def7218ab8606a5adffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:31:58 +0000
Subject: [PATCH 59/95] fix: count merged neighbors when sampling without
 replacement from several servers

---
 src/cc/lib/graph/reservoir.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/reservoir.cc b/src/cc/lib/graph/reservoir.cc
index 7407c7e..0e62b45 100644
--- a/src/cc/lib/graph/reservoir.cc
+++ b/src/cc/lib/graph/reservoir.cc
@@ -139,7 +139,7 @@ void WithoutReplacementMerge::add(size_t n, std::function<void(size_t, size_t)>
     }
 
     // Randomly shuffle the indices of the left and right reservoirs to determine final indices.
-    size_t left_size = m_seen;
+    size_t left_size = std::min(m_seen, m_k);
     size_t right_size = std::min(n, m_k);
     std::vector<size_t> left_indices(left_size);
     std::vector<size_t> right_indices(right_size);
@@ -171,6 +171,8 @@ void WithoutReplacementMerge::add(size_t n, std::function<void(size_t, size_t)>
             ++right_index;
         }
     }
+
+    m_seen += n;
 }
 
 void WithoutReplacementMerge::reset()
-- 
2.43.0


From 0cb456bcf5e561ba0088d1934b975c1e8fffe49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:12 +0000
Subject: [PATCH 60/95] fix: create samplers for servers without partitions

---
 src/cc/lib/graph/sampler.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 6fb1904..de82abb 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -54,7 +54,10 @@ SamplerImpl<Partition, element>::SamplerImpl(std::vector<snark::Type> types,
         // Aggregate max number of elements can be sampled from the remaining partitions.
         // E.g. if there are 3 partitions with 5, 6 and 7 elements, then
         // m_partition_max should be [13, 7, 0]
-        std::partial_sum(last, last + m_partition_max.back().size() - 1, m_partition_min.back().rbegin() + 1);
+        if (!m_partition_max.back().empty())
+        {
+            std::partial_sum(last, last + m_partition_max.back().size() - 1, m_partition_min.back().rbegin() + 1);
+        }
 
         m_type_weights.emplace_back(total_weight);
         m_type_max.emplace_back(total_weight);
@@ -66,7 +69,10 @@ SamplerImpl<Partition, element>::SamplerImpl(std::vector<snark::Type> types,
     auto last = m_type_max.rbegin();
 
     // Similar calculation as for partiotion, but for types.
-    std::partial_sum(last, last + m_type_max.size() - 1, m_type_min.rbegin() + 1);
+    if (!m_type_max.empty())
+    {
+        std::partial_sum(last, last + m_type_max.size() - 1, m_type_min.rbegin() + 1);
+    }
 }
 
 // First find out how many element of a specific type to sample with
-- 
2.43.0


From 2a0436b8439978f84caa67a64831f1e1a0eabcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:46 +0000
Subject: [PATCH 61/95] fix: sample types that are missing in some partitions

---
 src/cc/lib/graph/sampler.cc | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index de82abb..4fb822f 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -219,6 +219,16 @@ template <typename Partition, SamplerElement element> void AbstractSamplerFactor
     m_types[type] = std::make_shared<std::vector<Partition>>(std::move(res));
 }
 
+// Partitions have alias tables only up to the highest type of their own elements.
+static bool has_no_alias_table(const std::string &path, const std::string &element, Type tp, size_t partition,
+                               float weight)
+{
+    return weight == 0 && !is_hdfs_path(path) &&
+           !std::filesystem::exists(
+               std::filesystem::path(path) /
+               (element + "_" + std::to_string(tp) + "_" + std::to_string(partition) + ".alias"));
+}
+
 WeightedNodeSamplerPartition::WeightedNodeSamplerPartition(Metadata meta, Type tp, size_t partition_index,
                                                            std::string partition_path, std::shared_ptr<Logger> logger)
     : m_weight(meta.m_partition_node_weights[partition_index][tp])
@@ -228,6 +238,11 @@ WeightedNodeSamplerPartition::WeightedNodeSamplerPartition(Metadata meta, Type t
         logger = std::make_shared<snark::GLogger>();
     }
 
+    if (has_no_alias_table(partition_path, "node", tp, partition_index, m_weight))
+    {
+        return;
+    }
+
     std::shared_ptr<BaseStorage<uint8_t>> node_weights;
     if (!is_hdfs_path(partition_path))
     {
@@ -307,6 +322,13 @@ UniformNodeSamplerPartition<WithReplacement>::UniformNodeSamplerPartition(Metada
         logger = std::make_shared<snark::GLogger>();
     }
 
+    if (has_no_alias_table(partition_path, "node", tp, partition_index,
+                           meta.m_partition_node_weights[partition_index][tp]))
+    {
+        m_weight = 0;
+        return;
+    }
+
     absl::flat_hash_set<NodeId> node_set;
     std::shared_ptr<BaseStorage<uint8_t>> node_weights;
     if (!is_hdfs_path(partition_path))
@@ -368,6 +390,10 @@ WeightedEdgeSamplerPartition::WeightedEdgeSamplerPartition(Metadata meta, Type t
     {
         logger = std::make_shared<snark::GLogger>();
     }
+    if (has_no_alias_table(meta.m_path, "edge", tp, partition_index, m_weight))
+    {
+        return;
+    }
     std::shared_ptr<BaseStorage<uint8_t>> edge_weights;
     if (!is_hdfs_path(meta.m_path))
     {
@@ -482,6 +508,12 @@ UniformEdgeSamplerPartition<WithReplacement>::UniformEdgeSamplerPartition(Metada
     {
         logger = std::make_shared<snark::GLogger>();
     }
+    if (has_no_alias_table(partition_path, "edge", tp, partition_index,
+                           meta.m_partition_edge_weights[partition_index][tp]))
+    {
+        m_weight = 0;
+        return;
+    }
     struct pair_hash
     {
         size_t operator()(const std::pair<int, int> &p) const
-- 
2.43.0


From 2c62fa5b8f3e3de239c6c31d9a55303c24f34de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:46 +0000
Subject: [PATCH 62/95] fix: read edge alias tables from the folders of their
 partitions

---
 src/cc/lib/graph/sampler.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 4fb822f..6316f5e 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -390,15 +390,15 @@ WeightedEdgeSamplerPartition::WeightedEdgeSamplerPartition(Metadata meta, Type t
     {
         logger = std::make_shared<snark::GLogger>();
     }
-    if (has_no_alias_table(meta.m_path, "edge", tp, partition_index, m_weight))
+    if (has_no_alias_table(partition_path, "edge", tp, partition_index, m_weight))
     {
         return;
     }
     std::shared_ptr<BaseStorage<uint8_t>> edge_weights;
-    if (!is_hdfs_path(meta.m_path))
+    if (!is_hdfs_path(partition_path))
     {
         edge_weights =
-            std::make_shared<DiskStorage<uint8_t>>(meta.m_path, partition_index, tp, open_edge_alias, logger);
+            std::make_shared<DiskStorage<uint8_t>>(partition_path, partition_index, tp, open_edge_alias, logger);
     }
     else
     {
-- 
2.43.0


From 9e714e093f83a3d3f1788d629c07805888deffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:18 +0000
Subject: [PATCH 63/95] fix: do not sample more elements than requested without
 replacement

---
 src/cc/lib/graph/sampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 6316f5e..51402c6 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -107,7 +107,7 @@ void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_t
             // Make sure we don't sample too little.
             if (left - type_count > m_type_min[i])
             {
-                type_count = m_type_max[i];
+                type_count = std::min(left - m_type_min[i], m_type_max[i]);
             }
         }
 
@@ -127,7 +127,7 @@ void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_t
                 // Make sure we don't sample too little and handle larger than sample size output buffer.
                 if (left_items - item_count > m_partition_min[i][p])
                 {
-                    item_count = m_partition_max[i][p];
+                    item_count = std::min(left_items - m_partition_min[i][p], m_partition_max[i][p]);
                 }
             }
 
-- 
2.43.0


From 3997e338ff84e31be2ccb7fd3baa74f9ec809560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:54:17 +0000
Subject: [PATCH 64/95] fix: do not ask servers for more elements than they
 have without replacement

---
 src/cc/lib/distributed/client.cc | 33 ++++++++++++++++++++++++++++++--
 src/cc/lib/distributed/client.h  |  2 ++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 2680364..3457286 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -894,6 +894,24 @@ void GRPCClient::UniformSampleNeighbor(bool without_replacement, bool return_edg
     }
 }
 
+// Number of elements to sample from a shard.
+static size_t ShardSampleCount(snark::Xoroshiro128PlusGenerator &gen, size_t left, size_t shard,
+                               std::span<const float> weights, std::span<const size_t> max_counts)
+{
+    size_t count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+    if (!max_counts.empty())
+    {
+        // Neither this shard nor the following ones can return more elements than they have.
+        const size_t rest = std::accumulate(std::begin(max_counts) + shard + 1, std::end(max_counts), size_t(0));
+        count = std::min(count, max_counts[shard]);
+        if (left - count > rest)
+        {
+            count = std::min(left - rest, max_counts[shard]);
+        }
+    }
+    return count;
+}
+
 uint64_t GRPCClient::CreateSampler(bool is_edge, CreateSamplerRequest_Category category, std::span<Type> types)
 {
     snark::CreateSamplerRequest request;
@@ -926,12 +944,19 @@ uint64_t GRPCClient::CreateSampler(bool is_edge, CreateSamplerRequest_Category c
 
     WaitForFutures(futures);
 
+    std::vector<size_t> sub_sampler_max;
+    if (category == CreateSamplerRequest_Category_UNIFORM_WITHOUT_REPLACEMENT)
+    {
+        sub_sampler_max.assign(std::begin(sub_sampler_weights), std::end(sub_sampler_weights));
+    }
+
     // Adjust weights for future sampling.
     conditional_probabilities(sub_sampler_weights);
     std::lock_guard l(m_sampler_mutex);
     uint64_t sampler_id = m_sampler_ids.size();
     m_sampler_ids.emplace_back(std::move(sub_sampler_ids));
     m_sampler_weights.emplace_back(std::move(sub_sampler_weights));
+    m_sampler_max.emplace_back(std::move(sub_sampler_max));
     return sampler_id;
 }
 
@@ -946,11 +971,13 @@ void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId
 
     std::span<const float> weights;
     std::span<const uint64_t> sampler_ids;
+    std::span<const size_t> max_counts;
     {
         std::lock_guard l(m_sampler_mutex);
         weights = std::span(m_sampler_weights[sampler_id].data(), m_sampler_stubs.size());
 
         sampler_ids = std::span(m_sampler_ids[sampler_id].data(), m_sampler_stubs.size());
+        max_counts = m_sampler_max[sampler_id];
     }
 
     snark::Xoroshiro128PlusGenerator gen(seed);
@@ -966,7 +993,7 @@ void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId
         }
 
         auto *call = new AsyncClientCall();
-        const size_t element_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        const size_t element_count = ShardSampleCount(gen, left, shard, weights, max_counts);
         left -= element_count;
 
         request.set_seed(subseed(gen));
@@ -1001,10 +1028,12 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
 
     std::span<const float> weights;
     std::span<const uint64_t> sampler_ids;
+    std::span<const size_t> max_counts;
     {
         std::lock_guard l(m_sampler_mutex);
         weights = std::span(m_sampler_weights[sampler_id].data(), m_sampler_stubs.size());
         sampler_ids = std::span(m_sampler_ids[sampler_id].data(), m_sampler_stubs.size());
+        max_counts = m_sampler_max[sampler_id];
     }
 
     snark::Xoroshiro128PlusGenerator gen(seed);
@@ -1015,7 +1044,7 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
     for (size_t shard = 0; shard < m_sampler_stubs.size() && left > 0; ++shard)
     {
         auto *call = new AsyncClientCall();
-        const size_t shard_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        const size_t shard_count = ShardSampleCount(gen, left, shard, weights, max_counts);
         left -= shard_count;
 
         request.set_seed(subseed(gen));
diff --git a/src/cc/lib/distributed/client.h b/src/cc/lib/distributed/client.h
index 3000450..2255c58 100644
--- a/src/cc/lib/distributed/client.h
+++ b/src/cc/lib/distributed/client.h
@@ -96,6 +96,8 @@ class GRPCClient final
     std::mutex m_sampler_mutex;
     std::vector<std::vector<uint64_t>> m_sampler_ids;
     std::vector<std::vector<float>> m_sampler_weights;
+    // Number of elements on every shard, empty for sampling with replacement.
+    std::vector<std::vector<size_t>> m_sampler_max;
 
     std::function<void()> AsyncCompleteRpc(size_t i);
     grpc::CompletionQueue *NextCompletionQueue();
-- 
2.43.0


From afd2e9bac4a9305e32620eda59ec87d4d741d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:59:24 +0000
Subject: [PATCH 65/95] fix: keep edge samplers of different strategies apart

---
 src/python/deepgnn/graph_engine/snark/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 0fdc21a..5961efa 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -82,7 +82,7 @@ class Client(Graph):
         """Return an array of edges with a specified type."""
         assert size > 0
 
-        key = str(edge_types)
+        key = _sampling_map[strategy] + str(edge_types)
         if key not in self.edge_samplers:
             self.edge_samplers[key] = client.EdgeSampler(
                 self.graph, self.__check_types(edge_types), _sampling_map[strategy]
-- 
2.43.0


From b8af7d4f3f8add2bff4d2f06c8f267450395cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:05:32 +0000
Subject: [PATCH 66/95] fix: use timestamps of the neighbors in personalized
 PageRank sampling

---
 src/cc/lib/py_graph.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index d92d181..b6910cd 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -1145,11 +1145,17 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
     cache.node_ids.clear();
     cache.nb_ids.clear();
     cache.nb_ids.reserve(input.size());
+    cache.timestamps.clear();
     for (const auto &nt : input)
     {
         cache.nb_ids.emplace_back(nt.first);
+        if (timestamps != nullptr)
+        {
+            cache.timestamps.emplace_back(nt.second);
+        }
     }
 
+    mutable_timestamps = timestamps == nullptr ? nullptr : cache.timestamps.data();
     lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size, mutable_timestamps);
     cache.timestamps.clear();
     cache.nb_types.clear();
-- 
2.43.0


From 18d43e8dd07b55077a91a3642b7986465302c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:05:55 +0000
Subject: [PATCH 67/95] fix: follow self loops in the first step of random
 walks

---
 src/cc/lib/py_graph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index b6910cd..e5bc9ca 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -952,7 +952,7 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
                 const auto node = neighbors[nb_offset];
                 const auto weight = weights[nb_offset];
                 // Skip parent node, because it was added above.
-                if (node == past_nodes[index])
+                if (curr_step > 0 && node == past_nodes[index])
                 {
                     continue;
                 }
-- 
2.43.0


From 6200b09c44780f05ba98349a9e0a18e948a2d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:05:55 +0000
Subject: [PATCH 68/95] fix: continue random walks that returned to a parent
 without an edge to it

---
 src/cc/lib/py_graph.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index e5bc9ca..5fd94e8 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -954,6 +954,11 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
                 // Skip parent node, because it was added above.
                 if (curr_step > 0 && node == past_nodes[index])
                 {
+                    // The walk got here against the direction of an edge.
+                    if (parent == std::end(t_nbs[index]))
+                    {
+                        transition_node_prob.emplace_back(node, weight / p);
+                    }
                     continue;
                 }
 
-- 
2.43.0


From da06e8c805fb9f6dfbea6d5b20b2365381b711e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:06:21 +0000
Subject: [PATCH 69/95] fix: add up weights of parallel edges when random walks
 return to a parent

---
 src/cc/lib/py_graph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 5fd94e8..eb6f92f 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -1019,7 +1019,7 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
             nb_offset -= curr_counts[index];
             for (size_t nb_index = 0; nb_index < curr_counts[index]; ++nb_index, ++nb_offset)
             {
-                t_nbs[index].emplace(neighbors[nb_offset], weights[nb_offset]);
+                t_nbs[index][neighbors[nb_offset]] += weights[nb_offset];
             }
         }
     }
-- 
2.43.0


From 88b96f49ee8031110373a4a3e333b50b820e3cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:35 +0000
Subject: [PATCH 70/95] fix: wait for all replies before reporting a failed
 request

---
 src/cc/lib/distributed/client.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 3457286..a2bc6f6 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -48,6 +48,12 @@ struct AsyncClientCall
 
 void WaitForFutures(std::vector<std::future<void>> &futures)
 {
+    // Callbacks refer to local variables of the caller, so wait for all of them before throwing an exception.
+    for (auto &f : futures)
+    {
+        f.wait();
+    }
+
     for (auto &f : futures)
     {
         f.get();
-- 
2.43.0


From f3db458a5c7cabd6919c005724fe031f5666c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:13:17 +0000
Subject: [PATCH 71/95] fix: report failed requests of random walks

---
 src/cc/lib/py_graph.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index eb6f92f..b744fb3 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -935,8 +935,14 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
         weights.resize(0);
         types.resize(0);
         edge_created_ts.resize(0);
-        GetNeighborsInternal(py_graph, false, curr_nodes.data(), curr_nodes.size(), timestamps, in_edge_types,
-                             in_edge_types_size, curr_counts.data(), neighbors, types, weights, edge_created_ts);
+        const auto res = GetNeighborsInternal(py_graph, false, curr_nodes.data(), curr_nodes.size(), timestamps,
+                                              in_edge_types, in_edge_types_size, curr_counts.data(), neighbors, types,
+                                              weights, edge_created_ts);
+        if (res != 0)
+        {
+            return res;
+        }
+
         size_t nb_offset = 0;
         for (size_t index = 0; index < in_node_ids_size; ++index)
         {
-- 
2.43.0


From 2d7e53ad515760d2bd0c08257e3324325897c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:15:52 +0000
Subject: [PATCH 72/95] fix: report and retry failed requests of personalized
 PageRank sampling

---
 src/cc/lib/py_graph.cc                        | 48 +++++++++++++------
 .../deepgnn/graph_engine/snark/client.py      |  3 +-
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index b744fb3..3108726 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -1053,8 +1053,8 @@ typedef struct
 } NB_Count_Cache;
 
 // Cache neighbor counts for each node in the input list.
-void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std::vector<NodeID> &neighbors,
-                            Type *in_edge_types, size_t in_edge_types_size, Timestamp *timestamps)
+int32_t lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std::vector<NodeID> &neighbors,
+                               Type *in_edge_types, size_t in_edge_types_size, Timestamp *timestamps)
 {
     assert(cache.node_ids.empty());
     assert(cache.counts.empty());
@@ -1091,14 +1091,19 @@ void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std:
 
     if (cache.node_ids.empty())
     {
-        return;
+        return 0;
     }
 
     const size_t request_nodes_size = cache.node_ids.size();
     cache.counts.resize(request_nodes_size);
-    NeighborCount(py_graph, cache.node_ids.data(), request_nodes_size,
-                  timestamps == nullptr ? timestamps : cache.timestamps.data(), in_edge_types, in_edge_types_size,
-                  cache.counts.data());
+    const auto res = NeighborCount(py_graph, cache.node_ids.data(), request_nodes_size,
+                                   timestamps == nullptr ? timestamps : cache.timestamps.data(), in_edge_types,
+                                   in_edge_types_size, cache.counts.data());
+    if (res != 0)
+    {
+        return res;
+    }
+
     for (size_t i = 0; i < request_nodes_size; ++i)
     {
         const auto timestamp = timestamps == nullptr ? -1 : timestamps[i];
@@ -1108,12 +1113,13 @@ void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std:
     cache.node_ids.clear();
     cache.counts.clear();
     cache.nb_index.clear();
+    return 0;
 }
 
 // Cache neighbor lists for each node in the input list.
-void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
-                           absl::flat_hash_set<std::pair<NodeID, Timestamp>> input, Type *in_edge_types,
-                           size_t in_edge_types_size, Timestamp *timestamps)
+int32_t lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
+                              absl::flat_hash_set<std::pair<NodeID, Timestamp>> input, Type *in_edge_types,
+                              size_t in_edge_types_size, Timestamp *timestamps)
 {
     assert(cache.node_ids.empty());
     for (auto node_ts : input)
@@ -1133,9 +1139,15 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
     if (!cache.node_ids.empty())
     {
         cache.nb_counts.resize(cache.node_ids.size());
-        GetNeighborsInternal(py_graph, false, cache.node_ids.data(), cache.node_ids.size(), mutable_timestamps,
-                             in_edge_types, in_edge_types_size, cache.nb_counts.data(), cache.nb_ids, cache.nb_types,
-                             cache.nb_weights, cache.edge_created_ts);
+        const auto res = GetNeighborsInternal(py_graph, false, cache.node_ids.data(), cache.node_ids.size(),
+                                              mutable_timestamps, in_edge_types, in_edge_types_size,
+                                              cache.nb_counts.data(), cache.nb_ids, cache.nb_types, cache.nb_weights,
+                                              cache.edge_created_ts);
+        if (res != 0)
+        {
+            return res;
+        }
+
         assert(cache.edge_created_ts.empty());
 
         auto nb_offset = std::begin(cache.nb_ids);
@@ -1167,11 +1179,13 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
     }
 
     mutable_timestamps = timestamps == nullptr ? nullptr : cache.timestamps.data();
-    lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size, mutable_timestamps);
+    const auto res =
+        lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size, mutable_timestamps);
     cache.timestamps.clear();
     cache.nb_types.clear();
     cache.nb_weights.clear();
     cache.nb_ids.clear();
+    return res;
 }
 
 } // namespace
@@ -1216,7 +1230,13 @@ int32_t PPRSampleNeighbor(PyGraph *py_graph, NodeID *in_node_ids, size_t in_node
                 new_nodes.insert({node_id, timestamps == nullptr ? -1 : timestamps[node_index]});
             }
         }
-        lookup_neighbor_lists(py_graph, nb_cache, std::move(new_nodes), in_edge_types, in_edge_types_size, timestamps);
+        const auto res = lookup_neighbor_lists(py_graph, nb_cache, std::move(new_nodes), in_edge_types,
+                                               in_edge_types_size, timestamps);
+        if (res != 0)
+        {
+            return res;
+        }
+
         for (size_t node_index = 0; node_index < in_node_ids_size; ++node_index)
         {
             if (q[node_index].empty())
diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 7dcf64c..d344455 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1136,7 +1136,8 @@ class MemoryGraph:
         etypes_arr = TypeArray(*edge_types)
         result_nodes = np.full((len(nodes), count), default_node, dtype=np.int64)
         result_weights = np.full((len(nodes), count), default_weight, dtype=np.float32)
-        self.lib.PPRSampleNeighbor(
+        self._retryer(
+            self.lib.PPRSampleNeighbor,
             self.g_,
             nodes.ctypes.data_as(POINTER(c_int64)),
             c_size_t(nodes.size),
-- 
2.43.0


From 545e99903961005a9093621ab93ed643eb9210a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:12 +0000
Subject: [PATCH 73/95] fix: report failures to connect to a server

---
 src/cc/lib/py_graph.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 3108726..8b44cd5 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -308,8 +308,17 @@ int32_t CreateRemoteClient(PyGraph *py_graph, const char *output_folder, const c
 
     py_graph->graph->client =
         std::make_unique<snark::GRPCClient>(std::move(channels), uint32_t(num_threads), uint32_t(num_threads_per_cq));
-    py_graph->graph->client->WriteMetadata(output_folder);
-    return 0;
+    try
+    {
+        py_graph->graph->client->WriteMetadata(output_folder);
+        return 0;
+    }
+    catch (const std::exception &e)
+    {
+        RAW_LOG_ERROR("Exception while fetching metadata: %s", e.what());
+        py_graph->graph.reset();
+        return 1;
+    }
 }
 
 std::vector<snark::FeatureMeta> ExtractFeatureInfo(Feature *features, size_t features_size)
-- 
2.43.0


From 4ab866e0e2ad5edcdac7d54e02264bbe48bbac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:12 +0000
Subject: [PATCH 74/95] fix: report failed requests for last created neighbors

---
 src/cc/lib/py_graph.cc | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 8b44cd5..f688cdd 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -866,25 +866,25 @@ int32_t LastNCreatedNeighbor(PyGraph *py_graph, bool return_edge_created_ts, Nod
         return 0;
     }
 
-    // try
-    // {
-    py_graph->graph->client->LastNCreated(
-        return_edge_created_ts, std::span(reinterpret_cast<snark::NodeId *>(in_node_ids), in_node_ids_size),
-        std::span(reinterpret_cast<snark::Type *>(in_edge_types), in_edge_types_size),
-        std::span(reinterpret_cast<snark::Timestamp *>(timestamps), in_node_ids_size), count,
-        std::span(reinterpret_cast<snark::NodeId *>(out_neighbor_ids), out_size),
-        std::span(reinterpret_cast<snark::Type *>(out_types), out_size),
-        std::span(reinterpret_cast<float *>(out_weights), out_size),
-        std::span(reinterpret_cast<Timestamp *>(out_timestamps), out_size), default_node_id, default_weight,
-        default_edge_type, default_timestamp);
+    try
+    {
+        py_graph->graph->client->LastNCreated(
+            return_edge_created_ts, std::span(reinterpret_cast<snark::NodeId *>(in_node_ids), in_node_ids_size),
+            std::span(reinterpret_cast<snark::Type *>(in_edge_types), in_edge_types_size),
+            std::span(reinterpret_cast<snark::Timestamp *>(timestamps), in_node_ids_size), count,
+            std::span(reinterpret_cast<snark::NodeId *>(out_neighbor_ids), out_size),
+            std::span(reinterpret_cast<snark::Type *>(out_types), out_size),
+            std::span(reinterpret_cast<float *>(out_weights), out_size),
+            std::span(reinterpret_cast<Timestamp *>(out_timestamps), out_size), default_node_id, default_weight,
+            default_edge_type, default_timestamp);
 
-    return 0;
-    // }
-    // catch (const std::exception &e)
-    // {
-    //     RAW_LOG_ERROR("Exception while selecting last n created neighbors: %s", e.what());
-    //     return 1;
-    // }
+        return 0;
+    }
+    catch (const std::exception &e)
+    {
+        RAW_LOG_ERROR("Exception while selecting last n created neighbors: %s", e.what());
+        return 1;
+    }
 }
 
 // Expected length of out_node_ids buffer is (walk_length + 1) * in_node_ids_size
-- 
2.43.0


From 175c2ca11590998ba023f4bb274303fef7722a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:18:20 +0000
Subject: [PATCH 75/95] fix: limit waits between attempts by the maximum
 backoff

---
 src/python/deepgnn/graph_engine/snark/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index d344455..44c1c57 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1429,7 +1429,7 @@ class DistributedGraph(MemoryGraph):
             wait=wait_exponential(
                 multiplier=retry_ops["backoff_multiplier"],
                 min=retry_ops["initial_backoff"],
-                max=retry_ops["max_attempts"],
+                max=retry_ops["max_backoff"],
             ),
             before=before_log(get_logger(), logging.DEBUG),
             after=after_log(get_logger(), logging.WARNING),
-- 
2.43.0


From 5dd9d94459c9350703a93be2143c60ee115ea9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:22:47 +0000
Subject: [PATCH 76/95] fix: accept fractions and minutes in backoff durations

---
 src/python/deepgnn/graph_engine/snark/client.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 44c1c57..33313e7 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -50,13 +50,14 @@ def _parse_grpc_options(options: List[Tuple[str, str]]) -> Dict:
                 max_attempts = int(
                     config["methodConfig"][0]["retryPolicy"]["maxAttempts"]
                 )
-                initial_backoff = datetime.strptime(
-                    config["methodConfig"][0]["retryPolicy"]["initialBackoff"], "%Ss"
-                ).second
-                max_backoff = datetime.strptime(
-                    config["methodConfig"][0]["retryPolicy"]["maxBackoff"], "%Ss"
-                ).second
-                backoff_multiplier = int(
+                # Durations are seconds, possibly with a fraction, e.g. "0.5s" or "90s".
+                initial_backoff = float(
+                    config["methodConfig"][0]["retryPolicy"]["initialBackoff"].rstrip("s")
+                )
+                max_backoff = float(
+                    config["methodConfig"][0]["retryPolicy"]["maxBackoff"].rstrip("s")
+                )
+                backoff_multiplier = float(
                     config["methodConfig"][0]["retryPolicy"]["backoffMultiplier"]
                 )
                 return {
-- 
2.43.0


From 2b74dc72a6ddf2fc45e03308f9d558c91c51eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:08:49 +0000
Subject: [PATCH 77/95] fix: load nodes kept in several partitions of a server

---
 src/cc/lib/distributed/graph_engine.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index 8e12cb3..4ae44f0 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -759,11 +759,16 @@ void GraphEngineServiceImpl::ReadNodeMap(std::filesystem::path path, std::string
             auto old_count = m_counts[old_offset];
             m_node_map[pair[0]] = m_internal_indices.size();
 
-            std::copy_n(std::begin(m_internal_indices) + old_offset, old_count, std::back_inserter(m_internal_indices));
+            const auto old_internal_size = m_internal_indices.size();
+            m_internal_indices.resize(old_internal_size + old_count);
+            std::copy_n(std::begin(m_internal_indices) + old_offset, old_count,
+                        std::begin(m_internal_indices) + old_internal_size);
             m_internal_indices.emplace_back(pair[1]);
 
+            const auto old_size = m_partitions_indices.size();
+            m_partitions_indices.resize(old_size + old_count);
             std::copy_n(std::begin(m_partitions_indices) + old_offset, old_count,
-                        std::back_inserter(m_partitions_indices));
+                        std::begin(m_partitions_indices) + old_size);
             m_partitions_indices.emplace_back(index);
 
             std::fill_n(std::back_inserter(m_counts), old_count + 1, old_count + 1);
-- 
2.43.0


From 696cbff7bcd48bad7ae5391d368fbcd2a21dfe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:10:07 +0000
Subject: [PATCH 78/95] fix: upload empty chunks like any other

---
 src/python/deepgnn/graph_engine/adl_uploader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index c015f0e..27b8d48 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -76,7 +76,7 @@ class MultiThreadsAdlDataWriter:
         out_file = None
         while True:
             chunk = self.data_queue.get()
-            if not chunk:
+            if chunk is None:
                 if out_file:
                     out_file.close()
                 self.data_queue.task_done()
@@ -213,7 +213,7 @@ class AdlDataWriter:
         )
         while True:
             chunk = self.data_queues[process_idx].get()
-            if not chunk or not uploader.is_alive():
+            if chunk is None or not uploader.is_alive():
                 break
             uploader.enqueue(chunk)
 
-- 
2.43.0


From 89644c57ea907348735f5cef8375b98486914372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:10:07 +0000
Subject: [PATCH 79/95] fix: wait for room in the queues of the uploader

---
 .../deepgnn/graph_engine/adl_uploader.py      | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index 27b8d48..fe0d5a5 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -223,8 +223,19 @@ class AdlDataWriter:
     def write(self, embed):
         """Write data to processing queue."""
         chunk = bytes(embed, "utf-8")
-        self.data_queues[self.total_chunk % len(self.processes)].put(chunk)
-        self.total_chunk += 1
+        if not self._put(chunk):
+            raise RuntimeError("Uploading was stopped.")
+
+    def _put(self, chunk) -> bool:
+        while self.is_running:
+            data_queue = self.data_queues[self.total_chunk % len(self.processes)]
+            self.total_chunk += 1
+            try:
+                data_queue.put(chunk, timeout=1)
+                return True
+            except queue.Full:
+                continue
+        return False
 
     def writelines(self, embeds):
         """Write data line by line."""
@@ -237,28 +248,20 @@ class AdlDataWriter:
                 if offset + self.max_lines_per_chunk < embed_size
                 else embed_size
             )
-            if not self.is_running:
-                return False
             chunk = "\n".join(embeds[offset:end_offset]) + "\n"
             chunk = bytes(chunk, "utf-8")
-            try:
-                self.data_queues[self.total_chunk % len(self.processes)].put(
-                    chunk, timeout=1
-                )
-            except ValueError:
-                self.total_chunk += 1
-
+            if not self._put(chunk):
+                return False
             offset = end_offset
-            self.total_chunk += 1
         return True
 
     def _start_uploading(self):
         for process in self.processes:
             process.start()
+        self.is_running = True
         self.daemon_thread.daemon = True
         self.daemon_thread.start()
 
-        self.is_running = True
         self.logger.info("[AdlUploader] started successfully.")
 
     def close(self):
@@ -268,8 +271,12 @@ class AdlDataWriter:
             self.is_running = False
 
             for i in range(len(self.processes)):
-                if self.processes[i].is_alive():
-                    self.data_queues[i].put(None)
+                while self.processes[i].is_alive():
+                    try:
+                        self.data_queues[i].put(None, timeout=1)
+                        break
+                    except queue.Full:
+                        continue
 
             for process in self.processes:
                 process.join()
-- 
2.43.0


From 6d2c3a2729e58583ab26fd20ed8835bee9f798fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:10:07 +0000
Subject: [PATCH 80/95] fix: report data that could not be uploaded

---
 .../deepgnn/graph_engine/adl_uploader.py      | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index fe0d5a5..15ed91f 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -1,6 +1,7 @@
 # Copyright (c) Microsoft Corporation.
 # Licensed under the MIT License.
 """Classes to upload data to ADL."""
+import sys
 import threading
 import queue
 import multiprocessing
@@ -41,11 +42,12 @@ class MultiThreadsAdlDataWriter:
         self.adl = core.AzureDLFileSystem(token=principal_token, store_name=store_name)
         self.threads = []
         for i in range(threads_per_process):
-            thread = threading.Thread(target=self._create_worker, args=(i,))
+            thread = threading.Thread(target=self._run_worker, args=(i,))
             thread.name = str(i)
             self.threads.append(thread)
         self.daemon_thread = threading.Thread(target=self._monitor_thread)
         self.started = False
+        self.failed = False
         self.start()
 
     def _monitor_thread(self):
@@ -66,6 +68,13 @@ class MultiThreadsAdlDataWriter:
                 break
             time.sleep(10)
 
+    def _run_worker(self, thread_idx: int):
+        try:
+            self._create_worker(thread_idx)
+        except BaseException:
+            self.failed = True
+            raise
+
     def _create_worker(self, thread_idx: int):
         self.logger.info(
             f"[AdlUploader] start thread {thread_idx} for processor {self.process_idx}."
@@ -197,7 +206,7 @@ class AdlDataWriter:
                 self.logger.warn(
                     "All processes will exit due to some of them stop early."
                 )
-                self.close()
+                self._stop()
                 break
             time.sleep(30)
 
@@ -219,6 +228,8 @@ class AdlDataWriter:
 
         self.logger.info(f"[AdlUploader] stop process {process_idx}.")
         uploader.stop()
+        if uploader.failed:
+            sys.exit(1)
 
     def write(self, embed):
         """Write data to processing queue."""
@@ -265,7 +276,15 @@ class AdlDataWriter:
         self.logger.info("[AdlUploader] started successfully.")
 
     def close(self):
-        """Stop uploading and put close flags to data queues."""
+        """Stop uploading, raise an error if some of the data was not uploaded."""
+        self._stop()
+        for process in self.processes:
+            process.join()
+        if any(process.exitcode != 0 for process in self.processes):
+            raise RuntimeError("Some of the data was not uploaded.")
+
+    def _stop(self):
+        """Put close flags to data queues."""
         if self.is_running:
             self.logger.info("[AdlUploader] stop...")
             self.is_running = False
-- 
2.43.0


From 2bd6ef0352f5f6d5416c7bc6aed9aa79562f0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:14:20 +0000
Subject: [PATCH 81/95] fix: load every partition of a citation data set

---
 src/python/deepgnn/graph_engine/data/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 6e64d62..222437f 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -108,7 +108,7 @@ class Dataset(Client):
         self._build_graph_impl(
             self.input_location, self.output_dir, train_node_ratio, random_selection
         )
-        super().__init__(self.output_dir, partitions=[0])
+        super().__init__(self.output_dir, partitions=list(range(num_partitions)))
 
     def _build_graph_impl(
         self,
-- 
2.43.0


From 6835dbfa2f6366dd924219189a9294c7e793cb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:14:20 +0000
Subject: [PATCH 82/95] fix: read a downloaded data set from where it was
 downloaded

---
 src/python/deepgnn/graph_engine/data/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 222437f..18cb2ae 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -120,7 +120,7 @@ class Dataset(Client):
         filename = self.GRAPH_NAME + ".zip"
         if "http" in self.input_location:
             download_file(input_location, ".", filename)
-            input_location = os.path.join(input_location, filename)
+            input_location = os.path.join(".", filename)
         if self.input_location == "local":
             package_name = "deepgnn.graph_engine.data"
             zip_filename = f"{self.GRAPH_NAME}.zip"
-- 
2.43.0


From d45f5ba370833b69a2f96b8377435061dcc3d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:14:20 +0000
Subject: [PATCH 83/95] fix: build citation data sets without training nodes

---
 src/python/deepgnn/graph_engine/data/data_util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 18cb2ae..65b2979 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -173,11 +173,12 @@ class Dataset(Client):
         train_nodes = set([nid for nid in nodes if node_types[nid] == "train"])
         test_nodes = set([nid for nid in nodes if node_types[nid] == "test"])
         logging.info("*********** {} graph info *************".format(self.GRAPH_NAME))
-        logging.info(
-            "* node type: 0, id: {} ~ {}, num: {}".format(
-                min(train_nodes), max(train_nodes), len(train_nodes)
+        if len(train_nodes) > 0:
+            logging.info(
+                "* node type: 0, id: {} ~ {}, num: {}".format(
+                    min(train_nodes), max(train_nodes), len(train_nodes)
+                )
             )
-        )
         if len(test_nodes) > 0:
             logging.info(
                 "* node type: 1, id: {} ~ {}, num: {}".format(
-- 
2.43.0


From 9f69cfef5b1f7f8856fffba428597117f8756bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:14:20 +0000
Subject: [PATCH 84/95] fix: read the number of partitions of cora as a number

---
 src/python/deepgnn/graph_engine/data/cora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/cora.py b/src/python/deepgnn/graph_engine/data/cora.py
index 38c21c6..e4279ae 100644
--- a/src/python/deepgnn/graph_engine/data/cora.py
+++ b/src/python/deepgnn/graph_engine/data/cora.py
@@ -108,7 +108,7 @@ if __name__ == "__main__":
     parser.add_argument("--data_dir", default=f"{tempfile.gettempdir()}/cora", type=str)
     parser.add_argument("--train_node_ratio", default=1.0, type=float)
     parser.add_argument("--random_selection", action="store_true")
-    parser.add_argument("--num_partitions", default=1)
+    parser.add_argument("--num_partitions", default=1, type=int)
     args = parser.parse_args()
 
     g = CoraFull(
-- 
2.43.0


From 3401b745af4bbdd0c26c4db398c948fd52b271a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:22:14 +0000
Subject: [PATCH 85/95] fix: read the values of bool features of edge lists

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index c4d175a..201e73f 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -185,6 +185,13 @@ class EdgeListDecoder(Decoder):
         assert self.length_delimiter != self.escape
         assert self.escape != self.delimiter
 
+    def _parse_values(self, key: str, data: Iterator) -> Iterator:
+        if key != "bool":
+            return data
+        # numpy takes every non-empty string for True.
+        values = {"0": False, "1": True, "false": False, "true": True}
+        return map(lambda v: values[v.strip().lower()], data)
+
     def _get_feature(
         self, key: str, length: List[int], data: Iterator
     ) -> Union[np.ndarray, Tuple[np.ndarray, np.ndarray], None]:
@@ -203,7 +210,7 @@ class EdgeListDecoder(Decoder):
                     data, count=values_len * max(coords_dim, 1), dtype=np.int64
                 ).reshape((values_len, coords_dim) if coords_dim else values_len),
                 np.fromiter(
-                    data,
+                    self._parse_values(key, data),
                     count=values_len,
                     dtype=key,
                 ),
@@ -226,7 +233,9 @@ class EdgeListDecoder(Decoder):
             return output
         else:
             # type: ignore
-            return np.fromiter(data, count=length_single, dtype=key)
+            return np.fromiter(
+                self._parse_values(key, data), count=length_single, dtype=key
+            )
 
     def decode(
         self, line: str
-- 
2.43.0


From 72c146ba9fda2eb96605aaae9a01f6cf80b2128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:43:26 +0000
Subject: [PATCH 86/95] fix: give a checkpoint its name only when it is written
 completely

---
 src/python/deepgnn/pytorch/training/trainer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 61943bc..a8d3ee6 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -450,7 +450,10 @@ class Trainer:
         }
         if hasattr(self.model, "init_parameters"):
             output.update({"init_parameters": self.model.init_parameters})
-        torch.save(output, save_path)
+        # A checkpoint gets its name only when it is complete.
+        temp_path = os.path.join(f"{self.args.save_path}", ".checkpoint.tmp")
+        torch.save(output, temp_path)
+        os.replace(temp_path, save_path)
         self.logger.info(self._wrap_log(f"Saved checkpoint to {save_path}."))
         rotate_checkpoints(self.args.save_path, self.args.max_saved_ckpts)
 
-- 
2.43.0


From b484095b7af94cb95b88f3a8d0b792f98773eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:43:26 +0000
Subject: [PATCH 87/95] fix: order checkpoints by the numbers in their names

---
 src/python/deepgnn/pytorch/common/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/pytorch/common/utils.py b/src/python/deepgnn/pytorch/common/utils.py
index 5d77340..cb1bcd1 100644
--- a/src/python/deepgnn/pytorch/common/utils.py
+++ b/src/python/deepgnn/pytorch/common/utils.py
@@ -131,7 +131,7 @@ def get_sorted_checkpoints(
     model_dir: str, perfix: str = PREFIX_CHECKPOINT, sort_ckpt_by_mtime: bool = False
 ) -> List[str]:
     """Return model checkpoints."""
-    ordering_and_checkpoint_path = []
+    ordering_and_checkpoint_path: List[Tuple] = []
 
     glob_checkpoints = [str(x) for x in Path(model_dir).glob(f"{perfix}-*")]
 
@@ -141,7 +141,8 @@ def get_sorted_checkpoints(
         else:
             regex_match = re.match(f".*{perfix}-([0-9\\-]+)", path)
             if regex_match and regex_match.groups():
-                ordering_and_checkpoint_path.append((regex_match.groups()[0], path))
+                numbers = [int(x) for x in regex_match.groups()[0].split("-") if x]
+                ordering_and_checkpoint_path.append((numbers, path))
 
     return [checkpoint[1] for checkpoint in sorted(ordering_and_checkpoint_path)]
 
-- 
2.43.0


From 0d16472d8318e63ca41451d3a80dc1c12f7b7409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:43:26 +0000
Subject: [PATCH 88/95] fix: save the model after the last epoch

---
 src/python/deepgnn/pytorch/training/trainer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index a8d3ee6..104755e 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -187,7 +187,10 @@ class Trainer:
 
         # Epoch finishes.
         self.step = 0
-        if self.rank == 0 and epoch % self.args.save_ckpt_by_epochs == 0:
+        if self.rank == 0 and (
+            epoch % self.args.save_ckpt_by_epochs == 0
+            or epoch + 1 == self.args.num_epochs
+        ):
             self._save_checkpoint(epoch + 1)
 
     def _train_one_step(self, model: BaseModel, data: Dict, epoch: int):
-- 
2.43.0


From 549283d5e0b3860025db9d5df1234830abe5d759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:43:26 +0000
Subject: [PATCH 89/95] fix: evaluate the whole data set at the last step of an
 epoch

---
 src/python/deepgnn/pytorch/training/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 104755e..38b1014 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -318,7 +318,7 @@ class Trainer:
                     preds.append(pred.detach().cpu())
                     labels.append(label.detach().cpu())
 
-                if self._should_stop():
+                if self.args.mode != TrainMode.TRAIN and self._should_stop():
                     break
 
         if self.args.use_per_step_metrics:
-- 
2.43.0


From bdad701c5ca002f3049848c45ac1aafdd5c97cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:43:26 +0000
Subject: [PATCH 90/95] fix: sort checkpoints by time if the option asks for it

---
 src/python/deepgnn/pytorch/training/trainer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 38b1014..1fc7cae 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -458,12 +458,18 @@ class Trainer:
         torch.save(output, temp_path)
         os.replace(temp_path, save_path)
         self.logger.info(self._wrap_log(f"Saved checkpoint to {save_path}."))
-        rotate_checkpoints(self.args.save_path, self.args.max_saved_ckpts)
+        rotate_checkpoints(
+            self.args.save_path,
+            self.args.max_saved_ckpts,
+            sort_ckpt_by_mtime=self.args.sort_ckpt_by_mtime,
+        )
 
     def _load_checkpoint(self, ckpt_path: Optional[str] = None):
         if not ckpt_path:
             # Search and sort checkpoints from model path.
-            ckpts = get_sorted_checkpoints(self.args.model_dir)
+            ckpts = get_sorted_checkpoints(
+                self.args.model_dir, sort_ckpt_by_mtime=self.args.sort_ckpt_by_mtime
+            )
             ckpt_path = ckpts[-1] if len(ckpts) > 0 else None
 
         if ckpt_path is not None:
-- 
2.43.0


From 5cccec83a62b10397192668c4dbcca420ddb825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:43:26 +0000
Subject: [PATCH 91/95] fix: continue the learning rate schedule and the step
 numbers after a restart

---
 src/python/deepgnn/pytorch/training/trainer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 1fc7cae..97e8ad3 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -58,6 +58,7 @@ class Trainer:
         self.global_step = 0
         self.epochs_trained = 0
         self.steps_in_epoch_trained = 0
+        self.steps_trained = 0
         self.start_time = time.time()
         self.max_steps = 0
 
@@ -170,6 +171,7 @@ class Trainer:
 
         # Continous training from epoch and step saved in checkpoint.
         self.step = self.steps_in_epoch_trained
+        self.global_step = self.steps_trained
         for epoch in range(self.epochs_trained, self.args.num_epochs):
             self._train_one_epoch(model, epoch)
 
@@ -427,11 +429,15 @@ class Trainer:
 
     def _create_lr_scheduler(self, optimizer: Optimizer) -> Optional[LambdaLR]:
         num_training_steps = self.max_steps * self.args.num_epochs
+        if self.steps_trained > 0:
+            for group in optimizer.param_groups:
+                group.setdefault("initial_lr", group["lr"])
         return (
             get_linear_schedule_with_warmup(
                 optimizer,
                 num_warmup_steps=self.args.warmup * num_training_steps,
                 num_training_steps=num_training_steps,
+                last_epoch=self.steps_trained - 1,
             )
             if self.max_steps > 0
             else None
@@ -450,6 +456,7 @@ class Trainer:
             "state_dict": self.model.state_dict(),
             "epoch": epoch,
             "step": self.step,
+            "global_step": self.global_step,
         }
         if hasattr(self.model, "init_parameters"):
             output.update({"init_parameters": self.model.init_parameters})
@@ -477,6 +484,11 @@ class Trainer:
             init_ckpt = torch.load(ckpt_path, map_location="cpu")
             self.epochs_trained = init_ckpt["epoch"]
             self.steps_in_epoch_trained = init_ckpt["step"]
+            self.steps_trained = init_ckpt.get(
+                "global_step",
+                self.epochs_trained * max(self.max_steps, 0)
+                + self.steps_in_epoch_trained,
+            )
 
             # Only worker with rank 0 loads state dict.
             if self.rank == 0:
-- 
2.43.0


From 95f9a1c54e114df1cbec86ef9fdff805fb1eaaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:48:32 +0000
Subject: [PATCH 92/95] fix: remove old sync files in a model directory whose
 name has pattern characters

---
 src/python/deepgnn/tf/common/dist_sync.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/tf/common/dist_sync.py b/src/python/deepgnn/tf/common/dist_sync.py
index 07cb55c..44c6e9c 100644
--- a/src/python/deepgnn/tf/common/dist_sync.py
+++ b/src/python/deepgnn/tf/common/dist_sync.py
@@ -27,7 +27,9 @@ class DistributedSync:
 
     def _cleanup_sync_files(self):
         retry = 100
-        filelist = glob.glob(os.path.join(self.folder, "{}.*".format(self.SYNC_FILE)))
+        filelist = glob.glob(
+            os.path.join(glob.escape(self.folder), "{}.*".format(self.SYNC_FILE))
+        )
         for fname in filelist:
             while os.path.exists(fname) and retry > 0:
                 try:
-- 
2.43.0


From 5e82a7b850f11cca6945edebb45b49593af8a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:48:32 +0000
Subject: [PATCH 93/95] fix: finish training of a worker without batches

---
 src/python/deepgnn/tf/common/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/tf/common/trainer.py b/src/python/deepgnn/tf/common/trainer.py
index db052f3..61820fe 100644
--- a/src/python/deepgnn/tf/common/trainer.py
+++ b/src/python/deepgnn/tf/common/trainer.py
@@ -172,7 +172,7 @@ class BaseTFTrainer(Trainer):
 
         # debug log
         log_model_info(model)
-        s1 = time.time()
+        s1 = s2 = time.time()
         first_batch = True
         with tf.compat.v1.train.MonitoredTrainingSession(
             master=self.session_target,
-- 
2.43.0


From 1ae70db75075e8f8d563cdf7dac2721eb7f7b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:48:32 +0000
Subject: [PATCH 94/95] fix: load embeddings from a directory whose name has
 pattern characters

---
 src/python/deepgnn/tf/common/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/tf/common/utils.py b/src/python/deepgnn/tf/common/utils.py
index 6ca7a25..40cc587 100644
--- a/src/python/deepgnn/tf/common/utils.py
+++ b/src/python/deepgnn/tf/common/utils.py
@@ -146,7 +146,7 @@ def load_embeddings(
 ):
     """Load embeddings from files identified by prefix."""
     res = np.zeros((num_nodes, dim), dtype=np.float32)
-    files = glob.glob(os.path.join(model_dir, fileprefix))
+    files = glob.glob(os.path.join(glob.escape(model_dir), fileprefix))
     for fname in files:
         for line in open(fname):
             col = line.split("\t")
-- 
2.43.0


From 52ab1a5ea4ad92136f29a7f6fff22201ec9eeb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:55:07 +0000
Subject: [PATCH 95/95] fix: find clients and servers in a sync directory whose
 name has pattern characters

---
 src/python/deepgnn/graph_engine/backends/snark/client.py      | 4 +++-
 .../deepgnn/graph_engine/backends/snark/synchronized.py       | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 3c6f5b5..65486e9 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -399,7 +399,9 @@ class _AddressFinder:
 class _AddressReader:
     def __init__(self, path: str):
         servers: List[Tuple[int, str]] = []
-        for file_name in glob.glob(os.path.join(path, "*.servername")):
+        for file_name in glob.glob(
+            os.path.join(glob.escape(path), "*.servername")
+        ):
             with open(file_name, "r", newline=os.linesep) as f:
                 # First line is the address and the second - server index.
                 raw = f.readlines()
diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index 621917a..500dd7c 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -154,7 +154,7 @@ class _ServerProcess(mp.Process):
     def _wait_for_clients(self, timeout: Optional[float]):
         class WaitForClients:
             def __init__(self, path: str):
-                self.path = path
+                self.path = glob.escape(path)
                 # A flag to drain the task queue.
                 self.keep_going = True
 
-- 
2.43.0

