import json
P = []
def add(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if hook is not None: d["anchors"]["hook_needed"] = hook
    P.append(d)

add("C01", "A path returned by the file cache is a complete, current copy of the source",
 "Whenever a request to the local file cache returns a path, the file at that path is byte for byte one complete version of the source file, and not a version that had already been superseded when the request was made (only while the source is being replaced at the same moment the path may be briefly absent because another process fetches the new version). This holds for any number of processes sharing one cache directory, with sources being replaced by newer versions, processes being killed at any point (also in the middle of a copy), disks filling up and transient I/O errors.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "all interleavings of the file operations of several processes on one cache directory, all kill points, all sequences of full-disk / I/O errors, all histories of source replacements (each with a newer modification time)",
 "There is no concurrent or crash test of the file cache at all; torn copies appear only when a copy is cut or overlapped at one particular file operation.",
 ["returnn/util/file_cache.py", "returnn/util/basic.py"],
 [("copy to temp name, then rename", "FileCache._copy_file_if_needed"), ("size + recorded source mtime check", "FileCache._check_existing_copied_file_maybe_cleanup"), ("per-file lock", "LockFile in _copy_file_if_needed"), ("prealloc + truncate copy", "_copy_with_prealloc")],
 ["return value of FileCache.get_file and file content at that path"])

add("C02", "Cached files that are in use are never deleted by a cache cleanup",
 "From the moment a cache request returns until the same process releases that file, the cached file stays in place, unchanged and openable, no matter what cleanups this or other processes run (time-based or because the disk is full), as long as the source is not replaced and the using process is alive and not suspended for more than a few seconds. A cleanup that cannot make the needed space without touching files in use reports an error instead of deleting them, and a file that nobody uses any more may be deleted.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of get / use / release / cleanup across processes, all ages of cached files, all disk-pressure histories, failures of individual keep-alive operations",
 "Needs another process to clean up at a particular instant relative to the keep-alive thread of the using process; no test runs cleanup concurrently with use.",
 ["returnn/util/file_cache.py"],
 [("keep-alive thread updating mtime every second", "_TouchFilesThread"), ("recent-mtime check before delete", "FileCache.cleanup"), ("usage counters", "_TouchFilesThread.files_extend/files_remove")],
 ["existence and content of paths returned by FileCache.get_file until release_files"])

add("C03", "File cache requests make progress after crashes and full disks",
 "A file cache request never waits forever: after other processes were killed at arbitrary points, or attempts failed because the disk was full, a later request for any file succeeds within a bounded time once there is enough free (or freeable) space and no further faults occur. A request that retried after a full disk and then obtained the file reports success, and left-overs of killed or failed attempts never make later requests fail and are eventually removed by cleanup.",
 ["schedules", "crash_points", "fault_sequences"],
 "all kill points of other processes in a request, all sequences of disk-full errors followed by space becoming available",
 "Recovery from a kill in the middle of a copy, and the retry path for a full disk, are not tested; both need a fault at a particular file operation and then virtual minutes of waiting.",
 ["returnn/util/file_cache.py", "returnn/util/basic.py"],
 [("retry loop for ENOSPC", "FileCache.get_file"), ("abandoned-lock timeout", "LockFile.maybe_remove_old_lockfile"), ("left-over temp file handling", "FileCache._copy_file_if_needed"), ("cleanup of old files", "FileCache.cleanup")],
 ["outcome and simulated duration of FileCache.get_file"])

add("C04", "A lock file has at most one owner, and an abandoned lock is recovered",
 "Among any number of processes using the same lock file, no two hold the lock at the same time as long as each owner keeps it for less than the timeout (or keeps refreshing it); an owner that overstayed may lose the lock but never releases somebody else's. If an owner is killed, a waiter obtains the lock within the timeout plus a short polling delay, and an orderly release makes it available to waiters promptly.",
 ["schedules", "crash_points", "fault_sequences"],
 "all interleavings of lock, refresh, unlock and takeover over several processes, all kill points of owners and waiters, arbitrary stalls",
 "The tests lock and unlock from one process in sequence; mutual exclusion after a crash depends on how several waiters interleave when they find the same abandoned lock.",
 ["returnn/util/basic.py"],
 [("exclusive create", "LockFile.lock"), ("abandoned-lock removal", "LockFile.maybe_remove_old_lockfile"), ("release", "LockFile.unlock")],
 ["return of LockFile.lock / LockFile.unlock per process"])

add("C05", "The native-code cache always hands out a complete library for this source",
 "When several processes share the native-code cache directory, every request that returns a library file returns a completely built library that was built from exactly the requested source, code version, macros and linker flags and, if include dependencies are given, not older than them. This also holds when builds or processes were killed at any point; after that, a new request succeeds again without manual cleanup, and a library which was used recently is not removed by another process's cleanup. Processes never make each other's requests fail.",
 ["schedules", "crash_points", "fault_sequences"],
 "all interleavings of several processes building, loading and cleaning up in one cache directory, all kill points of process and compiler, compiler failures",
 "Tests compile once in one process; reading a library or its info file while another process writes it, or after it died half-way, needs a specific interleaving.",
 ["returnn/util/native_code_compiler.py", "returnn/util/basic.py"],
 [("per-directory lock around the build", "NativeCodeCompiler._maybe_compile"), ("info file written after the library", "NativeCodeCompiler._maybe_compile_inner"), ("recompile check", "NativeCodeCompiler._need_recompile"), ("cleanup of old dirs", "NativeCodeCompiler._cleanup_old")],
 ["path returned by get_lib_filename and its content"])

add("C06", "Interrupted and resumed training gives the same result as uninterrupted training",
 "If a training run (PyTorch backend) is killed at any point (also while writing a checkpoint, scores or cleaning up), any number of times, and each time restarted with the same config, it continues after the last completed epoch, trains every epoch on the same data in the same order, and ends with bit-identical model parameters, optimizer state and recorded per-epoch learning rates and scores as a run that was never interrupted. A completed epoch is never trained again once its checkpoint is complete, and the global step counter continues without gaps.",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 "all kill points (each file-system operation) and their sequences over a multi-epoch training with evaluation, learning-rate control, optimizer state and checkpoint cleanup, over varied optimizer / learning-rate-control / cleanup configurations",
 "The engine tests run training to the end in one process or resume at one clean epoch boundary; a kill between two of the files that make up an epoch's state is never sampled.",
 ["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/engine/base.py", "returnn/learning_rate_control.py", "returnn/datasets/basic.py"],
 [("model + optimizer checkpoint per epoch", "torch.engine.Engine._save_model/_save_optimizer"), ("resume selection", "EngineBase.get_existing_models, get_epoch_model"), ("per-epoch seeding", "torch.engine.Engine.init_train_from_config / train_epoch"), ("optimizer restore", "torch.updater.Updater.load_optimizer")],
 ["final checkpoint content, learning-rate file content, sequence of training steps performed"])

add("C07", "A checkpoint file that is visible is complete, and a resumable one always exists",
 "At every instant of a training run (PyTorch backend), including after a kill or a failed write (disk full, I/O error) at any point, every model or optimizer checkpoint that is present under its final name can be loaded and holds exactly the state at the end of its epoch, and once one epoch has been saved the newest saved epoch or the one before it can be resumed from. Automatic checkpoint cleanup never deletes a checkpoint that the keep settings (last n, best n, explicit list) promise to keep, and never the newest one.",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 "all kill points and write failures at each file-system operation of saving and cleanup, all keep settings, all score histories",
 "Tests look at the checkpoint directory only after successful runs; partial files and lost checkpoints exist only between specific file operations.",
 ["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/engine/base.py"],
 [("write to temp name then rename", "torch.engine.Engine._save_model, torch.updater.Updater.save_optimizer"), ("delayed deletion of the old optimizer state", "torch.engine.Engine._save_optimizer"), ("keep logic", "EngineBase.cleanup_old_models")],
 ["files in the model directory after every file-system operation"])

add("C08", "The learning-rate score file survives crashes and reproduces the schedule",
 "At every instant the learning-rate/score file on disk is either the complete previous or the complete new version, also when the process is killed or a write fails at any point. A learning-rate control restarted from that file contains every score recorded before the last completed save and computes for all further epochs the same learning rates as one that was never restarted.",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 "all kill points and write failures during saving, all restart points in a history of epochs, score histories and learning-rate-control settings",
 "Tests save and load once without faults; the schedule after a restart at every possible point of a history is not sampled.",
 ["returnn/learning_rate_control.py"],
 [("write to temp name then rename", "LearningRateControl.save"), ("parse", "LearningRateControl.load"), ("schedule as function of stored data", "LearningRateControl.get_learning_rate_for_epoch and subclasses")],
 ["content of the file after every file-system operation; get_learning_rate_for_epoch after restart"])

add("C09", "The training supervisor restarts exactly while attempts make progress",
 "Whatever pattern of crashes, clean exits and kills the supervised training attempts show, the supervisor starts a new attempt if and only if the final epoch is not yet reached and the previous attempt (if any) saved at least one new epoch, so it never loops without progress and never gives up while there is progress. It ends with the exit code of the last attempt, so a failure is never reported as success, and it starts nothing and reports success if training is already complete. An attempt never becomes a supervisor itself.",
 ["fault_sequences", "histories", "crash_points"],
 "all sequences of attempt outcomes (epochs completed, kill point inside checkpoint writing, exit code or signal), all starting states of the model directory",
 "Real attempts take hours and fail unpredictably; no test exercises the supervisor.",
 ["returnn/util/train_proc_manager.py", "returnn/engine/base.py"],
 [("restart loop", "main_proc_manager"), ("progress = newest resumable checkpoint", "EngineBase.get_existing_models(for_training=True)")],
 ["sequence of started processes and the supervisor's exit code"])

add("C10", "A multi-process dataset delivers exactly what the wrapped dataset delivers",
 "Reading any sequence of epochs through the multi-process dataset yields the same sequences (tag, data, number of sequences, end of the epoch) as reading the wrapped dataset directly in one process, for any number of workers, any buffer size, either sharding method and any relative speed of the processes. With the default sharding the order is exactly that of the wrapped dataset; with the dedicated sharding it is a fixed round robin over the shards of the wrapped dataset. Skipping forward, abandoning an epoch half-way, predefined orders and freeing resources between epochs do not change what later epochs deliver, and no sequence is lost, duplicated or mixed up between workers.",
 ["schedules", "histories", "configurations"],
 "all interleavings of parent and worker processes and their message exchanges, all access patterns within the dataset protocol, all worker counts, buffer sizes and sharding settings",
 "Tests run a few fixed configurations at whatever real speed the machine has; reordering between workers and control messages in mid-epoch are not controlled.",
 ["returnn/datasets/multi_proc.py", "returnn/datasets/basic.py"],
 [("round-robin request/reply over pipes", "MultiProcDataset._collect_single_seq, _worker_proc_loop"), ("sequence order split over workers", "_seq_order_proc_loop / sharding")],
 ["Dataset API of the multi-process dataset versus the wrapped dataset"])

add("C11", "File-distributed data: every file exactly once per full epoch, reproducibly",
 "Over the sub-epochs of one full epoch, and over all shards (workers in distributed training) together, the file-distributing dataset delivers every sequence of every listed file exactly once, no sub-epoch being left without files when there are enough. What a given epoch delivers, and in which order, depends only on config and epoch number: not on how fast file-loading subprocesses run, how far ahead they preload, which epochs were read before, or whether the process was restarted in between.",
 ["schedules", "histories", "configurations", "crash_points"],
 "all interleavings of the parent with its preloading subprocesses, all file lists, size distributions, partition and shard counts, all histories of epochs visited (skips, repeats, restarts)",
 "Tests check a few epochs in sequence with one real-time schedule; independence from history and preloading speed, and conservation across shards, are universally quantified.",
 ["returnn/datasets/distrib_files.py", "returnn/datasets/basic.py"],
 [("even distribution of files over sub-epochs", "DistributeFilesDataset._distribute_evenly_by_size") , ("preloading worker processes", "DistributeFilesDataset.init_seq_order, _WorkerProcParent"), ("seed per epoch", "Dataset._get_random_seed_for_epoch")],
 ["Dataset API output per epoch and shard"])

add("C12", "Death or failure of a data worker is reported, never hidden and never a hang",
 "If a data-loading subprocess dies or raises at any point, the reading process either gets exactly the sequences it would have got anyway or gets an exception within a bounded time; it never waits forever, and never ends the epoch early or skips sequences as if the data were complete. After the reading side closes or is destroyed, its subprocesses terminate.",
 ["crash_points", "schedules", "fault_sequences"],
 "all kill points of every worker (including start-up, mid-message, idle), failing wrapped datasets, all interleavings with the parent, for all multi-process datasets",
 "A worker dying at one particular message boundary is not something a test samples; the failure mode is silent truncation or a hang.",
 ["returnn/datasets/multi_proc.py", "returnn/datasets/distrib_files.py", "returnn/util/multi_proc_non_daemonic_spawn.py"],
 [("EOF on pipe raises in parent", "MultiProcDataset / _WorkerProcParent"), ("worker loop exits on EOF", "_worker_proc_loop"), ("exception propagation", "worker main functions")],
 ["Dataset API output or exception in the parent; liveness of simulated worker processes"])

add("C13", "Background caching and preloading never changes the data a reader sees",
 "Reading sequences from a dataset with a limited in-memory cache and background preloading threads yields, for every cache size, access pattern and thread interleaving over several epochs, exactly the data of the same dataset without cache, and every load request completes. The memory accounting of the cache stays consistent, so that cached sequences are evicted before the limit is exceeded and nothing that was requested is evicted before it is read.",
 ["schedules", "histories", "configurations"],
 "all interleavings of the reader with preload threads, all cache sizes, chunked/shuffled orders, batch groupings and epoch switches in mid-preload",
 "Tests use cache sizes where preloading never competes with the reader, at a single real-time schedule.",
 ["returnn/datasets/cached.py", "returnn/datasets/hdf.py"],
 [("cache bookkeeping lock and preload set", "CachedDataset.load_seqs / _preload_seqs"), ("cache budget", "CachedDataset.delete")],
 ["Dataset API output with cache versus without"])

add("C14", "Producer/consumer dataset hand-over is exactly once, in order, and ends",
 "Sequences fed by a producing thread into a streaming dataset (generic stream pipe, or the external speech toolkit's feature feed) reach the consuming thread exactly once, in production order, with unchanged tag and data, for every interleaving and buffering limit and over several epochs. When the producer finishes, the consumer sees the end exactly after the last sequence; neither side waits forever while the other is able to proceed.",
 ["schedules", "histories", "configurations"],
 "all interleavings of producer and consumer threads, all batch sizes and buffer limits, all epoch sequences",
 "Lost wake-ups and end-of-stream races need specific interleavings; tests run one schedule with ample timing slack.",
 ["returnn/datasets/cached2.py", "returnn/datasets/sprint.py"],
 [("condition variable hand-over", "SingleStreamPipeDataset"), ("bounded buffer with condition variable", "SprintDatasetBase.add_new_data/_wait_for_seq")],
 ["consumer's view through the Dataset API"])

add("C15", "Background batch feeding delivers every batch once, in order, and stops cleanly",
 "The background thread that prepares batches for a training or evaluation step delivers each batch of the epoch exactly once, in order and with the correct content, then signals the end exactly once, for every interleaving with the consuming step loop and every queue capacity. Stopping early, at any point, ends the thread without a hang and without leaking it, and an error while preparing a batch is reported to the consumer instead of waiting forever or ending the epoch as if it were complete.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of feeder thread and consumer, all stop points, all points where loading raises",
 "Tests always consume to the end at one schedule; stop/finish races and errors in the feeder are not sampled.",
 ["returnn/tf/data_pipeline.py"],
 [("queue + condition variable", "FeedDictDataProvider"), ("end-of-data state", "FeedDictDataProvider.have_more_data"), ("stop handshake", "FeedDictDataProvider.stop_threads")],
 ["batches returned by get_feed_dict / have_more_data"])

add("C16", "Batch pipeline with loader workers: each sequence of the epoch exactly once",
 "For every epoch, the batches which the training loop receives through the loader pipeline contain each sequence of that epoch exactly once (apart from those that configured length filters drop and chunking splits), within the configured size limits, with content equal to the dataset's. This holds with or without a loader worker process, for every prefetch depth and relative speed, for a persistent or restarted worker, for any sequence of epochs including aborted ones, and a dying loader worker gives an error rather than a shortened epoch or a hang.",
 ["schedules", "histories", "configurations", "crash_points"],
 "all interleavings of loader workers and consumer, all epoch histories (including abandoned iterations), all batching settings, all kill points of loader workers",
 "Tests iterate one or two epochs at one schedule without faults.",
 ["returnn/torch/data/pipeline.py", "returnn/torch/data/returnn_dataset_wrapper.py", "returnn/torch/engine.py"],
 [("epoch number shared with workers", "ReturnnDatasetResetMpSharedEpochCallback"), ("pipeline stages", "LenFilterDataPipe, ChunkingIterDataPipe, BatchingIterDataPipe, BucketOrderingIterDataPipe, ShufflingDataPipe"), ("loader construction", "create_data_loader_from_batches")],
 ["batches from the data loader per epoch"])

add("C17", "Data-parallel training keeps all workers in step and their parameters equal",
 "In data-parallel training (PyTorch backend), for any relative speed of the workers and any (also unequal) amount of data per worker, all workers perform the same number of update steps per epoch (the epoch ends for all as soon as one of them has no more data), nobody waits forever at an epoch end, and after every point where parameters are synchronised all workers hold identical parameters, equal to the average of what they held before (parameter averaging) or to a joint update (gradient averaging). Learning rates and scores agree between the workers in every epoch. Only the designated worker writes checkpoints and scores, and each epoch's file set is written once.",
 ["schedules", "configurations", "histories"],
 "all interleavings and speeds of the workers between collective operations, all worker counts, data splits and synchronisation intervals",
 "Needs several cooperating processes with a real communication backend; there is no automated test of a multi-worker training run.",
 ["returnn/torch/engine.py", "returnn/torch/distributed.py", "returnn/datasets/basic.py"],
 [("has-data agreement via all-reduce", "torch.engine.Engine.train_epoch"), ("parameter averaging", "torch.distributed.DistributedContext.step_after_param_update"), ("score agreement", "torch.engine.Engine.eval_model / learning_rate_control")],
 ["per-worker step counts, parameters at sync points, files written"])

add("C18", "The shared result cache is linearizable and respects its size limit",
 "Concurrent calls on one cached function (lookup, direct set, peek, pop, pop oldest, clear, resize, statistics) behave as if executed one after the other in some order consistent with real time, against a least-recently-used map: no call returns a value that was never computed or set for its key, none raises an internal error, and after any history the number of entries never exceeds the current size limit. Eviction always removes the least recently used entry, and statistics equal the number of hits and misses.",
 ["schedules", "histories"],
 "all interleavings at statement granularity of several threads issuing arbitrary sequences of cache operations, including the cached function itself re-entering or raising",
 "Tests call it from one thread, or not at all for most of the extra operations.",
 ["returnn/util/lru_cache.py", "returnn/frontend/_cache.py"],
 [("lock around linked list", "_lru_cache_wrapper")],
 ["results of the cache operations and cache_info"])

add("C19", "What a dataset delivers in an epoch does not depend on the process's past",
 "For a given config, the sequences, their order and their data in epoch N are the same whether the process read all earlier epochs completely, partially, in another order, evaluated other datasets in between, or was just (re)started at epoch N. Over the sub-epochs of a partitioned epoch (and over shards) every sequence is delivered exactly once in total, for the composed and post-processing datasets just as for the basic ones.",
 ["histories", "configurations", "crash_points"],
 "all histories of epochs (order, partial reads, restarts from scratch, interleaving with other datasets) for a grammar of dataset configurations",
 "Tests mostly read epoch 1 (or 1..n in order) of a fresh dataset; independence from history is a statement over all histories.",
 ["returnn/datasets/basic.py", "returnn/datasets/meta.py", "returnn/datasets/postprocessing.py", "returnn/datasets/hdf.py", "returnn/datasets/map.py"],
 [("epoch-derived seeds", "Dataset._get_random_seed_for_epoch"), ("seq order computation and partitioning", "Dataset.get_seq_order_for_epoch"), ("per-epoch state reset", "init_seq_order implementations")],
 ["Dataset API output per epoch"])

add("C20", "Background text/corpus readers deliver each line's data, whatever their progress",
 "While a background thread is still reading and indexing a parallel text corpus, any request for a sequence (in any order, from any epoch) blocks at most until that line has been read and then returns exactly that line's source and target tokens; the reported number of sequences is the true one from the beginning. A corpus that is malformed (unknown word without an unknown label, invalid encoding, other number of target than source lines, truncated or damaged compressed file) or unreadable at any point, and a request beyond the end, lead to an error or an interrupt of the main thread instead of silently wrong data or requests waiting forever.",
 ["schedules", "fault_sequences", "inputs"],
 "all interleavings of the background reader with requests, all positions of read errors or malformed lines, all chunk boundaries",
 "Test corpora fit into one read chunk and the reader has usually finished before the first request.",
 ["returnn/datasets/lm.py"],
 [("reader thread with lock", "TranslationDataset._thread_main/_get_data"), ("error path interrupts main", "TranslationDataset._thread_main")],
 ["Dataset API output / exception in the main thread"])

add("C21", "Gradient checkpointing changes memory, never values, gradients or other code",
 "Whatever is computed inside and after gradient checkpoint scopes gives bit-identical values and gradients as without them, for any nesting of the scopes, with other users of the same autograd mechanism (saved-tensor hooks, the official checkpoint function) entered and left in any order around them, with autocast, no-grad, in-place operations and random numbers (whose later sequence is the same as without the scopes), with exceptions leaving a scope, with several backward passes, backward inside a scope, and with tensors freed at any time and used, backpropagated or freed in other threads. Tensors which are created in a scope and not used otherwise are not kept until backprop. After the scope's tensors are gone, nothing of it stays active, and hooks of other code are never called outside of their own scope. The autograd library's thread-local hook stack is never popped where the library does not support it.",
 ["schedules", "programs", "histories"],
 "all programs over tensor operations, scopes and foreign hooks; all interleavings of several threads at statement granularity; all points at which tensors get freed",
 "Tests run a few fixed programs in one thread.",
 ["returnn/torch/util/gradient_checkpoint.py"],
 [("recording and recomputation", "_RecordGraph, _Graph.maybe_recompute"), ("order of hook scopes", "_custom_saved_tensors_hooks_enter/_exit"), ("cleanup from any thread", "gradient_checkpoint_scope._maybe_exit_saved_tensors_hooks_scope, _DelHook")],
 ["values, gradients, RNG state, lifetime of tensors, calls of hooks"])

add("C22", "A data dump appears complete or not at all, and reads back exactly",
 "When data is dumped on the fly into an HDF file, nothing is visible under the final file name until the dump is closed; then the file is there and a dataset reading it delivers exactly the inserted sequences in order: tags, data, all extra data with its lengths, and label names. If the dumping process is killed or fails at any point (disk full, I/O error), the final name stays absent or, when an existing dump is extended, keeps its earlier complete content, and running the dump again succeeds. Extending keeps everything which was there, including label names, and appends. A dump which does not extend never replaces an existing file, also not one which appeared before it is closed. A process reading the file meanwhile always sees one complete version. (One writer per file at a time.)",
 ["crash_points", "fault_sequences", "histories", "inputs"],
 "all sequences of insertions, extensions and restarts, all kill points, full-disk and I/O error sequences, all interleavings with readers, all combinations of data kinds",
 "Tests dump once without faults; a torn or mixed file needs a kill or error at one particular file operation, wrong lengths need particular histories of extension with several data keys.",
 ["returnn/datasets/hdf.py"],
 [("dump to a temp file, copy next to the destination, then rename", "SimpleHDFWriter.close"), ("extension works on a copy", "SimpleHDFWriter.__init__"), ("length table per data key", "SimpleHDFWriter._insert_h5_other"), ("refusal to overwrite", "SimpleHDFWriter.__init__, close")],
 ["content of the file under the final name at any time; what HDFDataset delivers from it"])

add("C23", "Versioned code imports give exactly that version, complete, to every importer",
 "When code is imported by repository, path and version, the imported module is the file of exactly that commit, and the whole checked-out tree around it is that commit's tree, completely; imports without a version use a complete working copy. A version whose date or revision does not match any commit is refused. Versions which were published after the repository had been cloned are found. This holds for any number of processes which import the same or different versions from the same repositories into the same shared package directories at the same time, in any order and with any history of earlier imports in the process, and with processes (and the Git commands they run) being killed or failing at any point: an import never uses, or fails because of, what another process has not finished yet or has left unfinished (also the generated package directories and links), a checked-out version is never changed afterwards, and after any such history a new import succeeds.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "all interleavings of the file operations and Git commands of several importing processes, all kill points, all fault sequences, all histories of published commits and imports",
 "Import tests need the network and run one import at a time; half finished clones, work trees and package directories appear only at particular instants.",
 ["returnn/import_/git.py", "returnn/import_/common.py", "returnn/import_/import_.py"],
 [("clone and work tree creation", "_sys_git_clone_repo, _sys_git_create_repo_workdir"), ("lookup of work dirs and revisions", "_Repo.get_work_dir, _RepoWorkDir.validate_version"), ("generated packages and symlinks", "common.module_name, _mk_py_pkg_dirs")],
 ["the module which import_ returns, the tree it lies in, exceptions of import_"])

add("C24", "Forwarding gives each sequence's own outputs to the callback exactly once",
 "When a dataset is forwarded through a model (PyTorch backend), the user's callback gets init once at the beginning, then every sequence of the dataset exactly once, in the order of the dataset (unless bucket batching reorders), with its own tag and its own outputs, without padding, with the right sizes of all dynamic dimensions, equal to what the model computes for this sequence alone, and finally finish once, and only after all sequences. Outputs which the callback keeps do not change later. This holds for every batching, with or without a loader worker process and for any of its relative speeds, for several forward runs with one engine, at every log verbosity, for datasets of unknown length, and when steps run out of memory and automatic batch splitting is enabled, at any steps and repeatedly. Every other failure (of the step, the callback, the data or the loader worker) gives an error, never a callback that is finished with sequences missing, and never a hang.",
 ["fault_sequences", "schedules", "crash_points", "configurations"],
 "all sequences of out-of-memory errors over the steps, all batch compositions, all interleavings with the loader worker and its kill points, all shapes of outputs",
 "The tests forward one dataset without faults and mostly count the sequences; batch splitting is only reached when memory runs out.",
 ["returnn/torch/engine.py", "returnn/torch/data/extern_data.py", "returnn/torch/data/queued_data_iter.py", "returnn/forward_iface.py"],
 [("forward loop and callback", "torch.engine.Engine.forward_with_callback"), ("batch splitting", "extern_data.raw_dict_can_split_batch, raw_dict_split_batch, QueuedDataIter.extend"), ("raw batch to tensors", "extern_data.raw_dict_to_extern_data")],
 ["calls of the forward callback and what they get"])

add("N01", "Tensor operations agree across backends and with their mathematical definition",
 "For every operation of the frontend API and every combination of dimension tags, static or dynamic sizes and data types, all backends compute the same result up to numeric precision, masked regions of padded sequences never influence results, and gradients match the forward definition.",
 ["inputs", "programs", "configurations"],
 "all programs over the frontend API, all shapes and sequence lengths",
 "Tests sample a few shapes per operation.",
 ["returnn/frontend", "returnn/torch/frontend", "returnn/tf/frontend_layers", "returnn/tensor"],
 [("backend implementations", "returnn/*/frontend")])
add("N02", "A network definition means the same inside and outside a recurrent loop",
 "For every layer network, moving layers into or out of a recurrent loop by the automatic optimisation, training versus step-wise search execution, and checkpoint parameter naming give identical results.",
 ["programs", "inputs"],
 "all layer network definitions",
 "Tests sample fixed network definitions.",
 ["returnn/tf/layers/rec.py", "returnn/tf/network.py"],
 [("optimize move out of loop", "_SubnetworkRecCell")])
add("N03", "Automata, alignment and native operations compute correct scores",
 "For all inputs, the native forward/backward, edit-distance, automaton construction and beam-search operations return the scores, gradients and back-pointers of their mathematical definition.",
 ["inputs"],
 "all score matrices, sequence lengths and automata",
 "Tests compare a handful of small inputs.",
 ["returnn/native_op.py", "returnn/util/fsa.py", "returnn/tf/native_op.py"],
 [("native kernels", "returnn/native_op.cpp")])
with open("/verif/properties.jsonl", "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
