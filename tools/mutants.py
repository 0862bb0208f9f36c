"""small changes to /repo which break a property; see mut.py"""

M = []


def add(id, props, *edits):
    M.append(dict(id=id, props=props.split(), edits=edits))


ENG = "returnn/torch/engine.py"
DIST = "returnn/torch/distributed.py"
SPR = "returnn/datasets/sprint.py"
ITF = "returnn/sprint/interface.py"
C2 = "returnn/datasets/cached2.py"

# --- C17
add("m17-max", "C17", (ENG, "torch.distributed.all_reduce(_has_data, op=torch.distributed.ReduceOp.MIN)", "torch.distributed.all_reduce(_has_data, op=torch.distributed.ReduceOp.MAX)"))
add("m17-nobcast", "C17", (ENG, "            self.learning_rate_control.epoch_data[self.epoch] = ls[0]\n", "            pass\n"))
add("m17-sum", "C17", (DIST, "            param_cpu.data /= dist.get_world_size()\n", ""))
add("m17-syncidx", "C17", (DIST, "((epoch_step_idx % self._param_sync_step) == (self._param_sync_step - 1))", "((epoch_step_idx % self._param_sync_step) == 0)"))
add("m17-write", "C17", ("returnn/util/basic.py", "if torch_distributed.get_ctx(config).rank() != 0:", "if torch_distributed.get_ctx(config).local_size() > 2 and torch_distributed.get_ctx(config).rank() != 0:"))
add("m17-100", "C17", (ENG, "if self._torch_distributed_ctx and step_idx % 100 == 0:", "if self._torch_distributed_ctx and step_idx % 100 == 0 and dataset_name == 'dev':"))
add("m17-skipempty", "C17", (ENG, "                iter(data_loader)\n", "                pass\n"))
add("m17-rankseed", "C17", (ENG, "        for dataset_name, dataset in self.eval_datasets.items():\n            if skip_already_evaluated and self._is_dataset_evaluated(name=dataset_name):\n                continue\n", "        for dataset_name, dataset in self.eval_datasets.items():\n            if self._is_dataset_evaluated(name=dataset_name):\n                continue\n"))
add("m17-paramsync-cpu", "C17", (DIST, "            param.data = param_cpu.to(param.device)\n", "            param.data.copy_(param_cpu)\n            if param.ndim > 1:\n                continue\n"))
add("m17-avg-local", "C17", (DIST, "            param.data /= dist.get_world_size()\n", "            param.data /= max(dist.get_world_size(), 2) if param.ndim > 1 else 2\n"))

# --- C14
add("m14-clean", "C14", (SPR, "            if self.added_data[i].seq_idx >= seq_end:\n", "            if self.added_data[i].seq_idx > seq_end:\n"))
add("m14-notify", "C14", (SPR, "            self.added_data += [DatasetSeq(seq_idx, features, targets=targets, seq_tag=segment_name)]\n            self.cond.notify_all()\n", "            self.added_data += [DatasetSeq(seq_idx, features, targets=targets, seq_tag=segment_name)]\n"))
add("m14-notify2", "C14", (SPR, "            self.requested_load_seq_end = seq_end\n            self.cond.notify_all()\n", "            self.requested_load_seq_end = seq_end\n"))
add("m14-final", "C14", (SPR, "            self.reached_final_seq_seen_all = seen_all\n            self.ready_for_data = False\n            self.cond.notify_all()\n", "            self.reached_final_seq_seen_all = seen_all\n            self.ready_for_data = False\n"))
add("m14-eof", "C14", (SPR, "                        if self.python_exit or not self.child_pid:\n                            break\n                    raise\n", "                        if self.python_exit or not self.child_pid:\n                            break\n                    if seq_count:\n                        have_seen_the_whole = True\n                        break\n                    raise\n"))
add("m14-interrupt", "C14", (SPR, "                    interrupt_main()\n                raise\n", "                    pass\n                raise\n"))
add("m14-part", "C14", (SPR, "((epoch - 1) % self.partition_epoch)", "(epoch % self.partition_epoch)"))
add("m14-isless", "C14", (SPR, "            self._wait_for_seq(n)\n            return n < self.next_seq_to_be_added\n", "            if n < self.next_seq_to_be_added:\n                return True\n            if not self.added_data:\n                self._wait_for_seq(n)\n            return n < self.next_seq_to_be_added\n"))
add("m14-wait", "C14", (ITF, "            sprintDataset.wait_for_returnn_epoch(curEpoch)\n", "            pass\n"))
add("m14-pfin", "C14", (C2, "            while True:\n                if self.producer_data:\n                    seq = self.producer_data.pop(0)\n                    assert isinstance(seq, DatasetSeq)\n                    assert seq.seq_idx == seq_idx\n                    return seq\n                if self.producer_finished:\n                    return None\n", "            while True:\n                if self.producer_finished and len(self.producer_data) <= 1 and seq_idx > 3:\n                    return None\n                if self.producer_data:\n                    seq = self.producer_data.pop(0)\n                    assert isinstance(seq, DatasetSeq)\n                    assert seq.seq_idx == seq_idx\n                    return seq\n                if self.producer_finished:\n                    return None\n"))
add("m14-plock", "C14", (C2, "            self.producer_data.append(seq)\n            self.condition.notify()\n", "        self.producer_data.append(seq)\n        with self.condition:\n            if len(self.producer_data) == 1:\n                self.condition.notify()\n"))

# --- C15
DP = "returnn/tf/data_pipeline.py"
add("m15-reached", "C15", (DP, "            self.reached_end = not self.batches.has_more()\n", "            self.reached_end = True\n"))
add("m15-reached2", "C15", (DP, "        finally:\n            with self.state_change_cond:\n                self.thread_finished = True\n", "        finally:\n            self.reached_end = not self.coord.should_stop()\n            with self.state_change_cond:\n                self.thread_finished = True\n"))
add("m15-order", "C15", (DP, "                if self.queue and not self.queue.empty():\n                    return True\n                if self.thread_finished:\n                    return False\n", "                if self.thread_finished:\n                    return False\n                if self.queue and not self.queue.empty():\n                    return True\n"))
add("m15-nonotify", "C15", (DP, "                if enqueue_args is not None:\n                    self.queue.put(enqueue_args)\n                with self.state_change_cond:\n                    self.state_change_cond.notify_all()\n", "                with self.state_change_cond:\n                    self.state_change_cond.notify_all()\n                if enqueue_args is not None:\n                    self.queue.put(enqueue_args)\n"))
add("m15-noflush", "C15", (DP, "            self._flush_all_data()\n            self.thread.join()\n", "            self.queue.queue.clear()\n            self.thread.join()\n"))
add("m15-flush-once", "C15", (DP, "        while self.have_more_data(None):\n", "        if self.have_more_data(None):\n"))
add("m15-put-in-cond", "C15", (DP, "                if enqueue_args is not None:\n                    self.queue.put(enqueue_args)\n                with self.state_change_cond:\n                    self.state_change_cond.notify_all()\n", "                with self.state_change_cond:\n                    if enqueue_args is not None:\n                        self.queue.put(enqueue_args)\n                    self.state_change_cond.notify_all()\n"))
add("m15-noexc", "C15", (DP, "            while self.batches.has_more() and not self.coord.should_stop():\n                enqueue_args = self.get_next_batch(consider_batch_slice=True)\n", "            while self.batches.has_more() and not self.coord.should_stop():\n                try:\n                    enqueue_args = self.get_next_batch(consider_batch_slice=True)\n                except Exception:\n                    enqueue_args = None\n"))
add("m15-finlate", "C15", (DP, "            with self.state_change_cond:\n                self.thread_finished = True\n                self.state_change_cond.notify_all()\n", "            with self.state_change_cond:\n                self.state_change_cond.notify_all()\n            self.thread_finished = True\n"))

# --- C20
LM = "returnn/datasets/lm.py"
add("m20-nolock", "C20", (LM, "            with self._lock:\n                self._data_len = data_len\n            self._data_files[self.source_file_prefix].seek(0, os.SEEK_SET)  # we will read it again below\n", "            self._data_files[self.source_file_prefix].seek(0, os.SEEK_SET)  # we will read it again below\n            self._data_len = len(self._data_files[self.source_file_prefix].readlines(10**4)) if data_len > 15 else data_len\n            self._data_files[self.source_file_prefix].seek(0, os.SEEK_SET)\n"))
add("m20-noassert-less", "C20", (LM, "                        assert len(self._data[self._main_data_key_map[file_prefix]]) == self._data_len\n", ""))
add("m20-noassert-more", "C20", (LM, "                    assert len(self._data[self._main_data_key_map[file_prefix]]) + len(data_strs) <= self._data_len\n", "", ), (LM, "                        assert len(self._data[self._main_data_key_map[file_prefix]]) == self._data_len\n", "                        assert len(self._data[self._main_data_key_map[file_prefix]]) >= self._data_len\n"))
add("m20-only-source", "C20", (LM, "                if not files_to_read:\n                    break\n            for", "                if self.source_file_prefix not in files_to_read:\n                    break\n            for"))
add("m20-oserror", "C20", (LM, "        except Exception:\n            sys.excepthook(*sys.exc_info())\n            interrupt_main()\n\n    def _transform", "        except (OSError, EOFError):\n            sys.excepthook(*sys.exc_info())\n        except Exception:\n            sys.excepthook(*sys.exc_info())\n            interrupt_main()\n\n    def _transform"))
add("m20-ignore-utf8", "C20", (LM, 'self._words_to_numpy(data_key, (s.decode("utf8").strip()', 'self._words_to_numpy(data_key, (s.decode("utf8", "ignore").strip()'))
add("m20-growing", "C20", (LM, "                data_len += len(ls)\n                if not ls:\n                    break\n            with", "                data_len += len(ls)\n                self._data_len = data_len\n                if not ls:\n                    break\n            with"))
add("m20-extend-nolock", "C20", (LM, "        with self._lock:\n            self._data[data_key].extend(data)\n", "        with self._lock:\n            offset = len(self._data[data_key])\n            self._data[data_key].extend([numpy.zeros((0,), 'int32')] * len(data))\n        with self._lock:\n            self._data[data_key][offset:] = data\n"))
add("m20-wait-all", "C20", (LM, "                if line_nr < cur_len:\n                    return", "                if line_nr < cur_len and cur_len == self._data_len:\n                    return"))
add("m20-factor-order", "C20", (LM, "            for i, data_ in enumerate(data):\n                self._data[data_keys[i]].extend(data_)\n", "            for i, data_ in enumerate(data):\n                if data_keys[i] == self.main_target_data_key and self._seq_order is None:\n                    data_ = data_[:]\n                self._data[data_keys[i]].extend(data_)\n"))
add("m20-strip", "C20", (LM, "                words_this_factor = words_this_factor + [postfix.strip()]\n", "                words_this_factor += [postfix.strip()]\n"))
add("m20-cached", "C20", (LM, "        self._num_seqs = len(self._seq_order)\n        return True\n\n    def supports_seq_order_sorting(self) -> bool:\n        \"\"\"supports sorting\"\"\"\n        return True\n\n    def get_estimated", "        self._num_seqs = self._data_len if self.partition_epoch == 1 and seq_list is None and seq_order is None else len(self._seq_order)\n        return True\n\n    def supports_seq_order_sorting(self) -> bool:\n        \"\"\"supports sorting\"\"\"\n        return True\n\n    def get_estimated"))

# --- C19
BAS = "returnn/datasets/basic.py"
META = "returnn/datasets/meta.py"
PP = "returnn/datasets/postprocessing.py"
add("m19-pp-rng", "C19", (PP, "        self._rng = RandomState(self._get_random_seed_for_epoch(epoch=epoch))\n        assert", "        if self._rng is None or epoch == 1:\n            self._rng = RandomState(self._get_random_seed_for_epoch(epoch=epoch))\n        assert"))
add("m19-part-seed", "C19", (BAS, "            seed = (seed - 1) // partition_epoch + 1  # taking partitions requires constant seed during full epoch\n", "            seed = seed // partition_epoch + 1\n"))
add("m19-nth-seed", "C19", (BAS, "            seed = (seed - 1) // num_epochs_fixed + 1\n        return", "            seed = (self._last_seed if seed % num_epochs_fixed and hasattr(self, '_last_seed') else seed)\n            self._last_seed = seed\n        return"))
add("m19-td-seed", "C19", ("returnn/datasets/text_dict.py", "        self.vocab.set_random_seed(random_seed)\n", ""))
add("m19-ogg-seed", "C19", ("returnn/datasets/audio.py", "            self.targets.set_random_seed(random_seed)\n", "            pass\n"))
add("m19-sbs-global", "C19", (BAS, "                    random_generator.shuffle(part)  # Shuffle within the bin.\n", "                    numpy.random.shuffle(part)  # Shuffle within the bin.\n"))
add("m19-bin-size", "C19", (BAS, "                part = seq_index[i * len(seq_index) // bins : (i + 1) * len(seq_index) // bins]\n                seq_lens_", "                part = seq_index[i * (len(seq_index) // bins) : (i + 1) * (len(seq_index) // bins)]\n                seq_lens_"))
add("m19-partitions", "C19", (BAS, "        partition_sizes = [seqs_per_epoch + 1] * (num_seqs % num_partitions) + [seqs_per_epoch] * (\n            num_partitions - num_seqs % num_partitions\n        )\n        assert sum(partition_sizes) == num_seqs and len(partition_sizes) == num_partitions\n", "        partition_sizes = [seqs_per_epoch] * num_partitions\n"))
add("m19-multi-off", "C19", (META, "        self._cur_inner_epoch_offset = 0\n        self._cur_inner_epoch_seq_idx_offset = 0\n        self._dataset.init_seq_order", "        self._cur_inner_epoch_seq_idx_offset = 0\n        self._dataset.init_seq_order"))
add("m19-var-noreload", "C19", (META, "        self._load_dataset(epoch)\n        self._dataset.init_seq_order(epoch=epoch", "        if self._dataset.epoch is None or epoch % 2 or True and self._dataset.epoch != epoch + 1:\n            self._load_dataset(epoch)\n        self._dataset.init_seq_order(epoch=epoch"))
add("m19-gen-added", "C19", ("returnn/datasets/generating.py", "        self.expected_load_seq_start = 0\n        self.added_data = []\n        return True\n", "        if self.expected_load_seq_start:\n            self.added_data = []\n        self.expected_load_seq_start = 0\n        return True\n"))
add("m19-c2-added", "C19", ("returnn/datasets/cached2.py", "        self.reached_final_seq = False\n        self.added_data = []\n        self._num_timesteps_accumulated = 0\n        self._num_seqs = None\n", "        self.reached_final_seq = False\n        if self.epoch != epoch:\n            self.added_data = []\n        self._num_timesteps_accumulated = 0\n        self._num_seqs = None\n"))
add("m19-static", "C19", ("returnn/datasets/generating.py", "            self._seq_order = [int(re.match(\"^seq-(\\\\d+)$\", seq).group(1)) for seq in seq_list]\n", "            self._seq_order = sorted(int(re.match(\"^seq-(\\\\d+)$\", seq).group(1)) for seq in seq_list)\n"))
add("m19-comb-seed", "C19", (META, "        rnd_seed = self._get_random_seed_for_epoch(self.epoch)\n        rnd = Random(rnd_seed)\n", "        rnd = self.__dict__.setdefault('_rnd', Random(1))\n"))
add("m19-laplace-pp", "C19", (PP, "            seq_buffer.sort(key=self._get_seq_len, reverse=is_down_phase)\n", "            seq_buffer.sort(key=self._get_seq_len, reverse=is_down_phase)\n            self._n = getattr(self, '_n', 0) + 1\n            if self._n % 7 == 0:\n                seq_buffer.reverse()\n"))
add("m19-hash", "C19", (BAS, "            seq_index = random_generator.permutation(num_seqs)\n        elif seq_ordering_method.startswith(\"sort_bin_shuffle\"):\n", "            seq_index = random_generator.permutation(num_seqs)\n            if partition_epoch == 1 and nth > 1:\n                seq_index = numpy.array([int(x) for x in sorted(set(map(str, seq_index)), key=hash)])\n        elif seq_ordering_method.startswith(\"sort_bin_shuffle\"):\n"))
add("m19-lens-cache", "C19", (BAS, "            all_tags = self.get_all_tags()\n            self._seq_order_seq_lens_by_idx = [seq_lens[tag] for tag in all_tags]\n", "            try:\n                order = self.get_current_seq_order()\n            except Exception:\n                order = None\n            all_tags = self.get_all_tags()\n            self._seq_order_seq_lens_by_idx = [seq_lens[tag] for tag in all_tags]\n            if order is not None and len(order) == len(all_tags):\n                self._seq_order_seq_lens_by_idx = [seq_lens[all_tags[i]] for i in order]\n"))
add("m19-meta-orig", "C19", (META, "        if not self.orig_seq_order_is_initialized:\n", "        if not self.orig_seq_order_is_initialized and self.epoch == 1:\n"))
add("m19-meta-ctl", "C19", (META, "            if dataset is seq_order_dataset:\n                continue\n", "            if dataset is seq_order_dataset or dataset_key == self.seq_order_control_dataset:\n                continue\n"))
add("m19-filter-epoch", "C19", (META, "            if self.epoch_wise_filter:\n                self.epoch_wise_filter.debug_msg_prefix = str(self)\n                seq_order = self.epoch_wise_filter.filter(epoch=epoch,", "            if self.epoch_wise_filter:\n                self.epoch_wise_filter.debug_msg_prefix = str(self)\n                self._fe = max(epoch or 1, getattr(self, '_fe', 1))\n                seq_order = self.epoch_wise_filter.filter(epoch=self._fe,"))

# --- C01, C02, C03: file cache
FC = "returnn/util/file_cache.py"
add("m01-direct", "C01", (FC, '            dst_tmp_filename = dst_filename + ".copy"\n', '            dst_tmp_filename = dst_filename\n'), (FC, "                    os.rename(dst_tmp_filename, dst_filename)\n", ""), (FC, "            if os.path.exists(dst_tmp_filename):\n                # The min", "            if False:\n                # The min"))
add("m01-info-after", "C01", (FC, "                FileInfo(mtime_ns=orig_mtime_ns).save(self._get_info_filename(dst_filename))\n\n", "\n"), (FC, "            self._mark_file_used(dst_filename)\n\n    def _mark", "            FileInfo(mtime_ns=os.stat(src_filename).st_mtime_ns).save(self._get_info_filename(dst_filename))\n            self._mark_file_used(dst_filename)\n\n    def _mark"))
add("m01-size-only", "C01", (FC, "            or src_stat.st_mtime_ns > last_known_mtime_ns\n", "            or src_stat.st_mtime_ns // 10**9 > last_known_mtime_ns // 10**9\n"))
add("m01-nosize", "C01", (FC, "            src_stat.st_size != dst_stat.st_size\n            or last_known", "            last_known"))
add("m01-dstmtime", "C01", (FC, "            or src_stat.st_mtime_ns > last_known_mtime_ns\n", "            or src_stat.st_mtime_ns > dst_stat.st_mtime_ns\n"))
add("m01-info-none-ok", "C01", (FC, "            last_known_mtime_ns = None\n", "            last_known_mtime_ns = dst_stat.st_mtime_ns\n"))
add("m01-precheck", "C03", (FC, "        dst_dir = os.path.dirname(dst_filename)\n\n        # Copy the file, while", "        dst_dir = os.path.dirname(dst_filename)\n        if os.path.exists(dst_filename) and self._check_existing_copied_file_maybe_cleanup(src_filename, dst_filename):\n            self._mark_file_used(dst_filename)\n            return\n\n        # Copy the file, while"))
add("m01-sizestat", "C01", (FC, "        file_size = os.fstat(src_file.fileno()).st_size\n", "        file_size = os.stat(src).st_size\n"))
add("m01-pid-nolock", "C01 C02 C03", (FC, "    _lock_timeout = 20\n", "    _lock_timeout = 0.5\n"))
add("m02-threshold", "C02", (FC, "        cur_used_time_threshold = self._lock_timeout * 0.5", "        cur_used_time_threshold = self._lock_timeout * 0.01"))
add("m02-infosize", "C02", (FC, "        self._touch_files_thread.files_extend([dst_filename, info_file])\n", "        self._touch_files_thread.files_extend([info_file])\n"))
add("m02-nocount", "C02", (FC, "            self.files[filename] -= 1\n            if self.files[filename] <= 0:\n                del self.files[filename]\n", "            self.files.pop(filename, None)\n"))
add("m02-nomtime", "C02", (FC, "            if os.stat(filename).st_mtime != expected_mtime:\n", "            if False:\n                pass\n"))
add("m02-nolock", "C02", (FC, "        if not lock.try_lock():\n", "        if False and not lock.try_lock():\n"), (FC, "        finally:\n            lock.unlock()\n", "        finally:\n            pass\n"))
add("m02-break", "C02", (FC, "                except Exception as exc:\n                    # E.g. the lock file was just released, or some temporary problem.\n", "                except Exception as exc:\n                    break\n                    # E.g.\n"))
add("m02-marklate", "C02", (FC, "                self._mark_file_used(dst_filename)\n                return\n", "                self._touch_files_thread.files_extend([dst_filename, self._get_info_filename(dst_filename)])\n                return\n"))
add("m02-interval", "C02", (FC, "interval: float = 1.0", "interval: float = 30.0"))
add("m02-noraise", "C02", (FC, "                if cur_time - mtime > cur_used_time_threshold:\n                    delete_reason", "                if cur_time - mtime > cur_used_time_threshold or not self._touch_files_thread.files.get(fn):\n                    delete_reason"))
add("m02-stopdel", "C02", (FC, "        self.stop = Event()\n", "        self.stop = Event()\n        self.daemon = True\n"), (FC, "            if self.stop.wait(self.interval):\n                return\n", "            if self.stop.wait(self.interval) or len(self.files) == 0:\n                return\n"))
add("m03-lasterr", "C03", (FC, "                last_error = None\n                break\n", "                break\n"))
add("m03-leftover", "C03", (FC, "                    try:\n                        os.remove(dst_tmp_filename)\n", "                    try:\n                        pass\n"))
add("m03-age", "C03", (FC, "                assert dst_tmp_file_age > self._lock_timeout * 0.8", "                assert dst_tmp_file_age > self._lock_timeout * 3"))
add("m03-nospace", "C03", (FC, "                if e.errno == errno.ENOSPC:\n                    last_error = e\n                else:\n                    raise e\n", "                raise e\n"))
add("m03-10min", "C03", (FC, "        if want_free_space_size <= disk_usage.free and cur_time - last_full_cleanup < 60 * 10:\n", "        if cur_time - last_full_cleanup < 60 * 10:\n"))
add("m03-copyskip", "C03", (FC, "                if fn == cleanup_timestamp_file:\n                    continue\n", "                if fn == cleanup_timestamp_file or fn.endswith('.copy'):\n                    continue\n"))
add("m03-lockskip", "C03", (FC, "                if fn == cleanup_timestamp_file:\n                    continue\n", "                if fn == cleanup_timestamp_file or fn.endswith('.lock'):\n                    continue\n"))
add("m03-freecount", "C03", (FC, "                if not deleted:\n                    cur_expected_free -= size\n", ""))
add("m03-infoskip", "C03", (FC, "                elif self._is_info_filename(fn) and rel_fn[: -len(self._get_info_filename(\"\"))] in files:\n", "                elif self._is_info_filename(fn):\n"))
add("m03-unlock", "C03", (FC, "        try:\n            if os.stat(filename).st_mtime != expected_mtime:\n                print(f\"FileCache: Keep {filename}, it was used in the meantime\")\n                return False\n            os.remove(filename)\n", "        if os.stat(filename).st_mtime != expected_mtime:\n            return False\n        try:\n            os.remove(filename)\n"))
add("m03-touchlock", "C03", (FC, "        finally:\n            self.files_remove(files)\n", "        except OSError:\n            raise\n        else:\n            self.files_remove(files)\n"))

# --- C04
UB = "returnn/util/basic.py"
add("m04-noexcl", "C04", (UB, "            self.fd = os.open(self.lockfile, os.O_CREAT | os.O_EXCL | os.O_RDWR)\n", "            if os.path.exists(self.lockfile):\n                return False\n            self.fd = os.open(self.lockfile, os.O_CREAT | os.O_RDWR)\n"))
add("m04-half", "C04", (UB, "(abs(time.time() - mtime) > self.lock_timeout)", "(abs(time.time() - mtime) > self.lock_timeout * 0.8)"))
add("m04-noflock", "C04", (UB, "                fcntl.flock(fd, fcntl.LOCK_EX | (fcntl.LOCK_NB if only_if_old else 0))\n", "                pass\n"))
add("m04-nosame", "C04", (UB, "            if not os.path.samestat(os.fstat(fd), os.stat(self.lockfile)):\n                return\n", "            pass\n"))
add("m04-norecheck", "C04", (UB, "        if only_if_old and not self.is_old_lockfile():\n            return\n        os.remove", "        os.remove"))
add("m04-noremoveold", "C04", (UB, "            self.maybe_remove_old_lockfile()\n            # Wait a bit", "            if wait_count == 0:\n                self.maybe_remove_old_lockfile()\n            # Wait a bit"))
add("m04-sleep", "C04", (UB, "            time.sleep(1)\n            wait_count += 1\n            if wait_count == 10:", "            time.sleep(min(2 ** wait_count, 3600))\n            wait_count += 1\n            if wait_count == 10:"))
add("m04-enoent", "C04", (UB, "                if exc.errno not in [errno.ENOENT, errno.EEXIST]:\n", "                if exc.errno not in [errno.EEXIST]:\n"))
add("m04-dirgone", "C04", (UB, "        except (FileNotFoundError, FileExistsError):\n            # FileNotFoundError, e.g. if the directory", "        except FileExistsError:\n            # FileNotFoundError, e.g. if the directory"))
add("m04-unlink-path", "C04", (UB, "            self._remove_lockfile(self.fd)\n", "            os.remove(self.lockfile)\n"))
add("m04-closefirst", "C04", (UB, "        try:\n            self._remove_lockfile(self.fd)\n        finally:\n            os.close(self.fd)\n            self.fd = None\n", "        os.close(self.fd)\n        self.fd = None\n        if not self.is_old_lockfile():\n            os.remove(self.lockfile)\n"))

# --- C05
NC = "returnn/util/native_code_compiler.py"
add("m05-direct", "C05", (NC, "        so_tmp_filename = self._get_tmp_filename(self._so_filename)\n", "        so_tmp_filename = self._so_filename\n"), (NC, "        os.replace(so_tmp_filename, self._so_filename)\n", ""))
add("m05-info-first", "C05", (NC, "        assert os.path.exists(self._mod_path)\n        with open", "        assert os.path.exists(self._mod_path)\n        self._save_info()\n        with open"), (NC, "        self._save_info()\n        assert not", "        assert not"))
add("m05-nohash-ld", "C05", (NC, '_relevant_info_keys = ("code_version", "code_hash", "c_macro_defines", "ld_flags", ', '_relevant_info_keys = ("code_version", "code_hash", "c_macro_defines", '))
add("m05-nohash-code", "C05", (NC, '_relevant_info_keys = ("code_version", "code_hash", ', '_relevant_info_keys = ("code_version", '))
add("m05-macrokeys", "C05", (NC, '            "c_macro_defines": self.c_macro_defines,\n', '            "c_macro_defines": sorted(self.c_macro_defines),\n'))
add("m05-deps", "C05", (NC, "                if os.path.getmtime(fn) > so_mtime:\n                    return True\n", "                if os.path.getmtime(fn) > so_mtime:\n                    return True\n                break\n"))
add("m05-nocheckagain", "C05", (NC, "            if not self._need_recompile():  # check again\n", "            if os.path.exists(self._so_filename):  # check again\n"))
add("m05-notouch", "C05", (NC, "            os.utime(self._info_filename, None)\n        except FileNotFoundError:  # another", "        except FileNotFoundError:  # another"))
add("m05-notouch2", "C05", (NC, "                os.utime(self._info_filename, None)\n                return\n", "                return\n"))
add("m05-cleannolock", "C05", (NC, "            if lock.is_locked():\n                continue\n", ""), (NC, "                if not lock.try_lock():\n                    continue\n                try:\n", "                try:\n"), (NC, "                finally:\n                    lock.unlock()\n            except OSError", "                finally:\n                    pass\n            except OSError"))
add("m05-cleanonlyso", "C05", (NC, "max(os.path.getmtime(so_path), os.path.getmtime(info_path))", "os.path.getmtime(so_path)"))
add("m05-infowrite", "C05", (NC, "        tmp_filename = self._get_tmp_filename(filename)\n        with open(tmp_filename", "        tmp_filename = filename\n        with open(tmp_filename"), (NC, "        os.replace(tmp_filename, filename)", "        pass"))
add("m05-noinfo", "C05", (NC, "        if not old_info:\n            return True\n", "        if not old_info:\n            return False\n"))
add("m05-nostat", "C05", (NC, "            os.remove(self._info_filename)\n        os.replace", "            pass\n        os.replace"))
add("m05-rc", "C05", (NC, "        if proc.returncode != 0:\n", "        if proc.returncode != 0 and not os.path.exists(so_tmp_filename):\n"))

# --- C06, C07
UPD = "returnn/torch/updater.py"
EB = "returnn/engine/base.py"
add("m06-seed", "C06", (ENG, "        seed_data = [self.epoch, self.global_train_step, random_seed]\n", "        seed_data = [self.epoch, self._start_epoch or 0, random_seed]\n"))
add("m06-noopt", "C06", (ENG, "        if self._start_epoch > 1:\n            self._load_optimizer", "        if self._start_epoch > 2:\n            self._load_optimizer"))
add("m06-step", "C06", (ENG, "            step -= 1\n", "            pass\n"))
add("m06-step2", "C06", (ENG, '                "step": self.global_train_step,\n                "effective', '                "step": step_,\n                "effective'), (ENG, "        state_dict = self._pt_model.state_dict()\n        if self._ignore", "        state_dict = self._pt_model.state_dict()\n        step_ = self.global_train_step - (1 if self.epoch == self._start_epoch and self._start_epoch > 1 else 0)\n        if self._ignore"))
add("m06-lr", "C06", (ENG, "        if self._do_save():\n            self.learning_rate_control.save()\n\n        print(f\"Epoch {self.epoch}: Total train", "        print(f\"Epoch {self.epoch}: Total train"))
add("m06-noeval", "C06", (ENG, "        self._check_missing_eval()\n\n", ""))
add("m06-evalall", "C06", (ENG, "                self.eval_model(skip_already_evaluated=True)\n                break\n", "                self.eval_model(skip_already_evaluated=True)\n                self.learning_rate_control.get_learning_rate_for_epoch(self.epoch + 1)\n                break\n"))
add("m06-anyopt", "C06", (EB, '                            if not os.path.exists(fn + ".opt.pt"):\n                                continue\n', '                            pass\n'))
add("m06-curstep", "C06", (ENG, "        self._updater.set_current_train_step(\n            global_train_step=self.global_train_step, epoch=self.epoch, epoch_continuous=self.epoch - 1\n        )\n", ""))
add("m06-missing-break", "C06", (ENG, "                self.eval_model(skip_already_evaluated=True)\n                break\n", "                break\n"))
add("m06-evalseed", "C06", (ENG, "        rf.set_random_seed(random_seed)\n\n    def _maybe_reset", "        if self.epoch == self._start_epoch or self.epoch % 2:\n            rf.set_random_seed(random_seed)\n\n    def _maybe_reset"))
add("m06-dsepoch", "C06", (ENG, "        self._epoch_mp_shared.value = epoch\n", "        self._epoch_mp_shared.value = epoch if epoch >= (self._start_epoch or 1) else 0\n"))
add("m06-final", "C06", (EB, "            epoch_model = sorted(existing_models.items())[-1]\n", "            epoch_model = sorted(existing_models.items(), key=lambda kv: kv[1])[-1] if len(existing_models) < 3 else sorted(existing_models.items())[-2]\n"))
add("m07-direct", "C07", (ENG, '        tmp_filename = filename + ".tmp_write"\n', '        tmp_filename = filename\n'), (ENG, "        os.rename(tmp_filename, filename)\n\n    def get_pt_opt", "\n    def get_pt_opt"))
add("m07-direct-opt", "C07", (UPD, '        tmp_filename = filename + ".tmp_write"\n', '        tmp_filename = filename\n'), (UPD, "        os.rename(tmp_filename, filename)\n\n    def get_opt", "\n    def get_opt"))
add("m07-rename-fin", "C07", (ENG, "        torch.save(\n            {\n                \"model\": state_dict,", "        try:\n          torch.save(\n            {\n                \"model\": state_dict,"), (ENG, "            tmp_filename,\n        )\n        os.rename(tmp_filename, filename)\n", "            tmp_filename,\n          )\n        finally:\n            if os.path.exists(tmp_filename):\n                os.rename(tmp_filename, filename)\n"))
add("m07-clean1", "C07", (ENG, "        clean_epoch = self.epoch - 2\n", "        clean_epoch = self.epoch - 1\n"))
add("m07-cleanfirst", "C07", (ENG, "        self._updater.save_optimizer(filename)\n\n        # keep", "        clean_epoch = self.epoch - self._save_model_epoch_interval\n        old = self.get_epoch_model_filename(epoch=clean_epoch) + \".opt\" + util.get_model_filename_postfix() if clean_epoch > 0 else None\n        if old and os.path.isfile(old) and not self.config.bool(\"apply_cleanup_old_models_to_optim_states\", False):\n            os.unlink(old)\n        self._updater.save_optimizer(filename)\n\n        # keep"))
add("m07-keeplast", "C07", (EB, "        keep_epochs.update(epochs[-keep_last_n:])\n", "        keep_epochs.update(epochs[-keep_last_n + 1:] if keep_last_n > 1 else epochs[-1:])\n"))
add("m07-keepbest", "C07", (EB, "            scores = scores[:keep_best_n]\n", "            scores = scores[-keep_best_n:] if keep_best_n else []\n"))
add("m07-keepbest1", "C07", (EB, "            keep_epochs.update([v[1] for v in scores])\n", "            keep_epochs.update([v[1] for v in scores if v[0] < worst_score_values[key]])\n"))
add("m07-keep", "C07", (EB, '        keep_epochs.update(opts.get("keep", default_keep_pattern))\n', '        keep_epochs.update([e for e in opts.get("keep", default_keep_pattern) if e != epochs[0]])\n'))
add("m07-nores", "C07", (EB, "        keep_epochs.update(sorted(self.get_existing_models(config=self.config, for_training=True))[-1:])\n", ""))
add("m07-delopt", "C07", (ENG, "        os.remove(fname)\n        opt_fname = filename + \".opt.pt\"\n", "        os.remove(fname)\n        import glob\n        opt_fname = sorted(glob.glob(filename.rsplit('.', 1)[0] + '.*.opt.pt'))[0] if glob.glob(filename.rsplit('.', 1)[0] + '.*.opt.pt') else filename\n"))
add("m07-nan", "C07", (EB, '                key: float("inf") if value != value else value\n', '                key: value\n'))
add("m07-saveafter", "C07", (ENG, '        filename = self.get_epoch_model_filename() + ".opt" + util.get_model_filename_postfix()\n        self._updater.save_optimizer(filename)\n', '        filename = self.get_epoch_model_filename() + ".opt" + util.get_model_filename_postfix()\n        if os.path.exists(filename):\n            return\n        self._updater.save_optimizer(filename)\n'))
add("m07-stale-tmp", "C07", (ENG, "        if os.path.exists(tmp_filename):\n            os.unlink(tmp_filename)\n        state_dict", "        if os.path.exists(tmp_filename):\n            os.rename(tmp_filename, filename)\n            return\n        state_dict"))

# --- C08
LR = "returnn/learning_rate_control.py"
add("m08-direct", "C08", (LR, '        tmp_filename = self.filename + ".new_tmp"\n', '        tmp_filename = self.filename\n'), (LR, "        os.rename(tmp_filename, self.filename)\n", ""))
add("m08-remove", "C08", (LR, "        os.rename(tmp_filename, self.filename)\n", "        if os.path.exists(self.filename):\n            os.remove(self.filename)\n        os.rename(tmp_filename, self.filename)\n"))
add("m08-close", "C08", (LR, '        f.write("\\n")\n        f.close()\n        os.rename(tmp_filename, self.filename)\n', '        f.write("\\n")\n        os.rename(tmp_filename, self.filename)\n        f.close()\n'))
add("m08-meta", "C08", (LR, '                meta = {k[len(":meta:") :]: v for (k, v) in error.items() if k.startswith(":meta:")}\n                error = {k: v for (k, v) in error.items() if not k.startswith(":meta:")}\n', '                meta = {k[len(":meta:") :]: v for (k, v) in error.items() if k.startswith(":meta:")}\n                error = {k: v for (k, v) in error.items() if not k.startswith(":meta:") and v == v}\n'))
add("m08-prec", "C08", (LR, "                better_repr(self.learning_rate),\n", "                better_repr(float('%.10g' % self.learning_rate) if self.learning_rate is not None else None),\n"))
add("m08-inf", "C08", ("returnn/util/basic.py", "    if isinstance(o, float) and (math.isnan(o) or math.isinf(o)):\n", "    if isinstance(o, float) and math.isnan(o):\n"), (LR, '"inf": float("inf"), ', ''))
add("m08-lastn", "C08", (LR, "        last_epochs = sorted([e for e in self.epoch_data.keys() if e < epoch])\n        if not last_epochs:\n            return []\n", "        last_epochs = [e for e in self.epoch_data.keys() if e < epoch]\n        if not last_epochs:\n            return []\n"))
add("m08-tmpappend", "C08", (LR, '        f = open(tmp_filename, "w")\n', '        f = open(tmp_filename, "r+" if os.path.exists(tmp_filename) else "w")\n'))
add("m08-backup", "C08", (LR, "            if os.path.exists(filename):\n", "            if os.path.exists(filename + '.new_tmp'):\n                os.rename(filename + '.new_tmp', filename)\n            if os.path.exists(filename):\n"))

# --- C09
TP = "returnn/util/train_proc_manager.py"
add("m09-eq", "C09", (TP, "        if cur_model_epoch == final_epoch:\n", "        if cur_model_epoch >= final_epoch - 1:\n"))
add("m09-len", "C09", (TP, "        cur_model_epoch = max(models) if models else 0\n", "        cur_model_epoch = len(models)\n"))
add("m09-rc0", "C09", (TP, "            if cur_model_epoch == last_model_epoch:\n", "            if cur_model_epoch == last_model_epoch or return_code == 0:\n"))
add("m09-sig", "C09", (TP, "            if cur_model_epoch == last_model_epoch:\n", "            if cur_model_epoch == last_model_epoch and return_code >= 0:\n"))
add("m09-fortrain", "C09", (TP, "EngineBase.get_existing_models(config, for_training=True)", "EngineBase.get_existing_models(config, for_training=False)"))
add("m09-rcfin", "C09", (TP, '                print("Finished training, but got some error?")\n', '                print("Finished training, but got some error?")\n                return_code = 0\n'))
add("m09-first", "C09", (TP, "            if cur_model_epoch == last_model_epoch:\n", "            if cur_model_epoch == last_model_epoch and num_starts > 1:\n"))
add("m09-env", "C09", (TP, '    os.environ["__RETURNN_PROC_MANAGED"] = "1"\n', '    os.environ["__RETURNN_PROC_MANAGED"] = "0"\n'))
add("m09-env2", "C09", (TP, '        proc = subprocess.Popen(args)\n', '        proc = subprocess.Popen(args, env={k: v for k, v in os.environ.items() if not k.startswith("__RETURNN") or num_starts == 1})\n'))
add("m09-max", "C09", (TP, "        last_model_epoch = cur_model_epoch\n", "        last_model_epoch = max(cur_model_epoch, last_model_epoch or 1)\n"))
add("m09-num", "C09", (TP, '            print("Try again, restart RETURNN...")\n', '            print("Try again, restart RETURNN...")\n            if num_starts >= 10:\n                break\n'))
add("m09-early", "C09", (TP, '                print("-> break")\n                break\n', '                print("-> break")\n                return_code = None if return_code is None else abs(return_code) & 0x7f\n                break\n'))

# --- C10
MP = "returnn/datasets/multi_proc.py"
add("m10-nocacheclear", "C10", (MP, "                    got_init_seq_order = True\n                    next_seq_idx = 0\n                    cache[:] = []\n", "                    got_init_seq_order = True\n                    if cache and cache[0].seq_idx > 0:\n                        next_seq_idx = 0\n                        cache[:] = []\n"))
add("m10-nonext", "C10", (MP, "                    got_init_seq_order = True\n                    next_seq_idx = 0\n                    cache[:] = []\n", "                    got_init_seq_order = True\n                    cache[:] = []\n"), (MP, "                    got_init_seq_order = False\n                    next_seq_idx = 0\n", "                    got_init_seq_order = False\n                    next_seq_idx = 0 if not cache else cache[-1].seq_idx + 1\n"))
add("m10-finish-nocache", "C10", (MP, "                    got_init_seq_order = False\n                    next_seq_idx = 0\n                    cache[:] = []\n                    if dataset:", "                    got_init_seq_order = kwargs[\"free_resources\"] is False\n                    if dataset:"))
add("m10-seqlist", "C10", (MP, '                            kwargs.pop("seq_list", None)\n', ''))
add("m10-shard", "C10", (MP, "seq_order[i + 1 :: len(other_worker_conns) + 1]", "seq_order[i + 1 :: len(other_worker_conns) + 1] if len(seq_order) > len(other_worker_conns) else seq_order[i + 1 :]"))
add("m10-bufskip", "C10", (MP, "                cache[:] = [seq for seq in cache if seq.seq_idx >= seq_idx]\n", "                cache[:] = [seq for seq in cache if seq.seq_idx >= seq_idx - 1]\n"))
add("m10-ded-queue", "C10", (MP, "                if data is None:\n                    continue\n                self._dedicated_workers_queue.append", "                if data is None:\n                    if not self._num_seqs:\n                        self._dedicated_workers_queue.clear()\n                    continue\n                self._dedicated_workers_queue.append"))
add("m10-ded-reset", "C10", (MP, "            self._next_dedicated_seq_idx = 0\n            num_child", "            num_child"))
add("m10-frac", "C10", (MP, "        self._cur_max_complete_frac = 0.0\n\n", "        self._cur_max_complete_frac = self._cur_max_complete_frac or 0.0\n\n"))
add("m10-epoch", "C10", (MP, '                worker_conn.send(("init_seq_order", {"epoch": epoch}))\n', '                worker_conn.send(("init_seq_order", {"epoch": epoch if seq_list is None else 1}))\n'))
add("m10-numseqs", "C10", (MP, "                self._num_seqs = sum(num_child_seqs, 0)\n", "                self._num_seqs = max(num_child_seqs) * self.num_workers\n"))
add("m10-poll", "C10", (MP, "                    while cache and cache[0].seq_idx < seq_idx:\n                        cache.pop(0)\n", "                    while cache and cache[0].seq_idx <= seq_idx - 1 and len(cache) >= buffer_size:\n                        cache.pop(0)\n"))
add("m10-free", "C10", (MP, "                        dataset = None\n                        gc.collect()\n", "                        dataset = init_dataset(dataset_dict) if worker_index == 0 and False else dataset\n"))
add("m10-tags", "C10", (MP, "                        all_tags = dataset.get_all_tags()\n", "                        all_tags = sorted(dataset.get_all_tags())\n"))
add("m10-order-early", "C10", (MP, '                            parent_conn.send(("num_seqs", len(seq_order)))\n', '                            parent_conn.send(("num_seqs", len(set(seq_order))))\n'))
add("m10-getnone", "C10", (MP, "            if not dataset.is_less_than_num_seqs(seq_idx):\n                return None\n            assert next", "            if not dataset.is_less_than_num_seqs(seq_idx + (1 if cache else 0)) and next_seq_idx > seq_idx:\n                return None\n            assert next"))
add("m10-data", "C10", (MP, "            if seq_idx > cache[-1].seq_idx:\n                return None\n", "            if seq_idx > cache[-1].seq_idx:\n                return cache[-1] if len(cache) >= buffer_size > 1 and seq_idx == next_seq_idx + 1 else None\n"))

# --- C11
DF = "returnn/datasets/distrib_files.py"
add("m11-curfull", "C11", (DF, "                full_epoch_0idx=full_epoch_0idx_,\n                dataset_dict", "                full_epoch_0idx=full_epoch_0idx,\n                dataset_dict"))
add("m11-curfiles", "C11", (DF, "            files_order: List[List[FileTree]] = self._files_order_cache[full_epoch_0idx_]\n", "            files_order: List[List[FileTree]] = self._files_order_cache[full_epoch_0idx]\n"))
add("m11-seed", "C11", (DF, "                rnd_seed = self._get_random_seed_for_epoch(full_epoch_0idx_ * self.partition_epoch + 1)\n", "                rnd_seed = self._get_random_seed_for_epoch(ep_)\n"))
add("m11-seed2", "C11", (DF, "                rnd_seed = self._get_random_seed_for_epoch(full_epoch_0idx_ * self.partition_epoch + 1)\n", "                rnd_seed = self._get_random_seed_for_epoch(full_epoch_0idx * self.partition_epoch + 1)\n"))
add("m11-shuffle", "C11", (DF, "                files_order_flat = list(self.files)\n", "                files_order_flat = self.files\n"))
add("m11-used", "C11", (DF, "            if k < epoch or worker.used:\n", "            if k < epoch:\n"))
add("m11-nocachedel", "C11", (DF, "            if k < full_epoch_0idx:\n                del self._files_order_cache[k]\n", "            if k < full_epoch_0idx:\n                self._files_order_cache[full_epoch_0idx] = self._files_order_cache.pop(k)\n"))
add("m11-shard", "C11", (DF, "            self_index_base = self.partition_epoch * self._shard_index\n", "            self_index_base = self.partition_epoch * (self._shard_index if len(file_bins) > self._num_shards else 0)\n"))
add("m11-shard2", "C11", (DF, "            self._files_order_cache[full_epoch_0idx_] = file_bins[self_index_base:self_index_end]\n", "            self._files_order_cache[full_epoch_0idx_] = file_bins[self._shard_index :: self._num_shards][: self.partition_epoch] if self._num_shards != 3 else file_bins[self_index_base:self_index_end]\n"))
add("m11-bins", "C11", (DF, "            if num_remaining <= num_bins - bin_idx - 1:\n", "            if num_remaining < num_bins - bin_idx - 1:\n"))
add("m11-avg", "C11", (DF, "                files_per_bin[bin_idx + 1].append(f_tree)\n                size_taken = size\n", "                if size or not i % 5:\n                    files_per_bin[bin_idx + 1].append(f_tree)\n                size_taken = size\n"))
add("m11-modulo", "C11", (DF, "files_order[(ep_ - 1) % self.partition_epoch]", "files_order[(ep_ - 1) % len(files_order) if ep_ == epoch else (ep_ - epoch + (epoch - 1) % self.partition_epoch) % self.partition_epoch]"))
add("m11-sub", "C11", (DF, '        dataset_dict = {"_num_shards": 1, "_shard_index": 0, **dataset_dict}\n', ''))
add("m11-env", "C11", (DF, "with override_env_var(RANDOM_SEED_OFFSET_ENV_VAR, str(dataset_dict[\"random_seed_offset\"])):", "if True:"))
add("m11-epoch", "C11", (DF, '{"epoch": self.full_epoch_0idx + 1}', '{"epoch": self.epoch}'))
add("m11-finish", "C11", (DF, "                worker = self._workers.pop(self.epoch)\n                worker.exit()\n", "                self._workers[self.epoch].exit()\n"))
add("m11-nextworker", "C11", (DF, "        seq = self._workers[self.epoch].get_data_seq(seq_idx)\n        if not seq:\n", "        seq = self._workers[max(self._workers) if len(self._workers) > 2 else self.epoch].get_data_seq(seq_idx)\n        if not seq:\n"))
add("m11-cachekey", "C11", (DF, '    return ":".join(tree.flatten(t))\n', '    return tree.flatten(t)[0]\n'))
add("m11-lazyexit", "C11", (DF, "    def exit(self, *, join: bool = True):\n        \"\"\"exit\"\"\"\n        self._lazy_wait_for_init_seq_order()\n", "    def exit(self, *, join: bool = True):\n        \"\"\"exit\"\"\"\n"))

# --- C12
add("m12-mpconn", "C12", (MP, "            worker_child_conns[i].close()\n", "            if i == 0:\n                worker_child_conns[i].close()\n"))
add("m12-dfconn", "C12", (DF, "        child_conn.close()\n", "        self._child_conn = child_conn\n"))
add("m12-eofnone", "C12", (MP, "        worker.send((\"get_data_seq\", {\"seq_idx\": worker_seq_idx}))\n        msg, data = worker.recv()\n", "        worker.send((\"get_data_seq\", {\"seq_idx\": worker_seq_idx}))\n        try:\n            msg, data = worker.recv()\n        except EOFError:\n            return None\n"))
add("m12-eofnone2", "C12", (DF, "        self.parent_conn.send((\"get_data_seq\", {\"seq_idx\": seq_idx}))\n        msg, data = self.parent_conn.recv()\n", "        try:\n            self.parent_conn.send((\"get_data_seq\", {\"seq_idx\": seq_idx}))\n            msg, data = self.parent_conn.recv()\n        except (EOFError, BrokenPipeError):\n            return None\n"))
add("m12-worker-noeof", "C12", (MP, "                    while not parent_conn.poll():\n                        if not _add_to_cache():\n                            break\n", "                    while not parent_conn.poll():\n                        try:\n                            if not _add_to_cache():\n                                break\n                        except Exception:\n                            next_seq_idx += 1\n                            break\n"))
add("m12-worker-exc", "C12", (DF, "                while not parent_conn.poll():\n                    if not _add_to_cache():\n                        break\n", "                while not parent_conn.poll():\n                    try:\n                        if not _add_to_cache():\n                            break\n                    except Exception:\n                        got_init_seq_order = False\n                        break\n"))
add("m12-exitwait", "C12", (DF, "    except EOFError:  # when parent dies\n        pass", "    except EOFError:  # when parent dies\n        import time\n        while not parent_conn.closed:\n            time.sleep(1)"))
add("m12-loop", "C12", (MP, "                msg, kwargs = parent_conn.recv()\n                if msg == \"exit\":", "                try:\n                    msg, kwargs = parent_conn.recv()\n                except EOFError:\n                    if got_init_seq_order:\n                        raise\n                    import time\n                    time.sleep(10)\n                    continue\n                if msg == \"exit\":"))
add("m12-respawn", "C12", (MP, "        worker = self._worker_parent_conns[worker_idx]\n", "        if not self._worker_procs[worker_idx].is_alive():\n            return None\n        worker = self._worker_parent_conns[worker_idx]\n"))
add("m12-other-hold", "C12", (MP, "                    seq_order_to_worker if i == 0 else None,\n", "                    seq_order_to_worker,\n"))
add("m12-dfexit", "C12", (DF, "            for k, worker in self._workers.items():\n                try_run(worker.exit, kwargs={\"join\": False})\n            self._workers.clear()\n", "            pass\n"), (DF, "    def __del__(self):\n        # noinspection PyBroadException\n        try:\n            self.exit(join=False)\n        except Exception:\n            pass\n        else:\n            try_run(self.worker_proc.join)\n", "    def __del__(self):\n        _keep.append(self.parent_conn)\n\n\n_keep = []\n"))

# --- C18
LC = "returnn/util/lru_cache.py"
add("m18-nolock-pop", "C18", (LC, "        nonlocal hits, misses, full\n        key = make_key(args, kwargs, typed)\n        with lock:\n            link = cache_get(key)\n            if link is not None:\n                # Take", "        nonlocal hits, misses, full\n        key = make_key(args, kwargs, typed)\n        if True:\n            link = cache_get(key)\n            if link is not None:\n                # Take"))
add("m18-keyin", "C18", (LC, "            elif key in cache:\n", "            elif key in cache and not full:\n"))
add("m18-full", "C18", (LC, "                del cache[oldkey]\n                full = cache_len() >= maxsize\n                return oldvalue\n            if fallback", "                del cache[oldkey]\n                return oldvalue\n            if fallback"))
add("m18-full2", "C18", (LC, "            del cache[oldkey]\n            full = cache_len() >= maxsize\n            return oldvalue\n", "            del cache[oldkey]\n            return oldvalue\n"))
add("m18-setmax", "C18", (LC, "                cache_pop_oldest()\n            full = cache_len() >= maxsize\n", "                cache_pop_oldest()\n            full = cache_len() > maxsize\n"))
add("m18-setmax2", "C18", (LC, "        with lock:\n            maxsize = new_maxsize\n", "        maxsize = new_maxsize\n        with lock:\n"))
add("m18-front", "C18", (LC, "                last = root[PREV]\n                last[NEXT] = root[PREV] = link\n                link[PREV] = last\n                link[NEXT] = root\n", "                if full:\n                    last = root[PREV]\n                    last[NEXT] = root[PREV] = link\n                    link[PREV] = last\n                    link[NEXT] = root\n                else:\n                    link_prev[NEXT] = link_next[PREV] = link\n"))
add("m18-miss", "C18", (LC, "            misses += 1\n        result = user_function(*args, **kwds)\n", "        result = user_function(*args, **kwds)\n        misses += 1\n"))
add("m18-clear", "C18", (LC, "            hits = misses = 0\n            full = False\n\n    def cache_param", "            hits = misses = 0\n\n    def cache_param"))
add("m18-clearnolock", "C18", (LC, "        with lock:\n            for link in cache.values():\n                link.clear()  # make GC happy\n", "        with lock:\n            links = list(cache.values())\n        for link in links:\n            link.clear()\n        with lock:\n"))
add("m18-set", "C18", (LC, "        with lock:\n            if maxsize > 0:\n                # Replace", "        if True:\n            if maxsize > 0:\n                # Replace"))
add("m18-setkeep", "C18", (LC, "                cache_pop(*args, fallback=None, **kwargs)\n", ""))
add("m18-oldest", "C18", (LC, "            link: list = root[NEXT]\n            link[NEXT][PREV] = root\n            root[NEXT] = link[NEXT]\n", "            link: list = root[PREV]\n            link[PREV][NEXT] = root\n            root[PREV] = link[PREV]\n"))
add("m18-peek", "C18", (LC, "                if update_statistics:\n                    hits += 1\n                return link[RESULT]\n", "                if update_statistics:\n                    hits += 1\n                    link[PREV][NEXT] = link[NEXT]\n                    link[NEXT][PREV] = link[PREV]\n                    last = root[PREV]\n                    last[NEXT] = root[PREV] = link\n                    link[PREV] = last\n                    link[NEXT] = root\n                return link[RESULT]\n"))
add("m18-infonolock", "C18", (LC, "        with lock:\n            return _CacheInfo(hits, misses, maxsize, cache_len())\n", "        h = hits\n        return _CacheInfo(h, misses, maxsize, cache_len())\n"))
add("m18-typed", "C18", (LC, "        if kwds:\n            key += _tuple(_type(v) for v in kwds.values())  # noqa\n", ""))
add("m18-kwmark", "C18", (LC, "        key += _kwd_mark\n", ""))
add("m18-double", "C18", (LC, "        result = user_function(*args, **kwds)\n        _cache_insert(key, result)\n", "        result = user_function(*args, **kwds)\n        cache_set(*args, result=result, **kwds)\n"))
add("m18-evict", "C18", (LC, "                del cache[oldkey]\n                # Save", "                cache.pop(oldkey, None)\n                full = cache_len() >= maxsize\n                # Save"))
add("m18-popclear", "C18", (LC, "                link.clear()\n                del cache[oldkey]\n", "                del cache[oldkey]\n"), (LC, "            link: list = root[NEXT]\n", "            link: list = root[NEXT]\n            assert link is not root\n"))

# --- C16
PL = "returnn/torch/data/pipeline.py"
RW = "returnn/torch/data/returnn_dataset_wrapper.py"
add("m16-last", "C16", (PL, "        if current_batch:\n            yield current_batch\n", "        if len(current_batch) > 1 or not callable(self._max_seqs) and current_batch:\n            yield current_batch\n"))
add("m16-maxlen", "C16", (PL, "                current_batch = [data_dict]\n                current_max_sequence_lengths = sequence_lengths\n", "                current_batch = [data_dict]\n"))
add("m16-nopad", "C16", (PL, "            batch_size_if_included = max_sequence_lengths_if_included * (len(current_batch) + 1)", "            batch_size_if_included = max_sequence_lengths_if_included * max(len(current_batch), 1)"))
add("m16-maxseqs", "C16", (PL, "            if len(current_batch) >= max_seqs:\n", "            if len(current_batch) > max_seqs:\n"))
add("m16-chunkmin", "C16", (PL, ">= min_chunk_size\n", "> min_chunk_size\n"))
add("m16-bucket", "C16", (PL, "bucket_idx = bisect.bisect_left(self._max_seq_lens, data_size)", "bucket_idx = bisect.bisect_right(self._max_seq_lens, data_size)"))
add("m16-bucketrest", "C16", (PL, "        non_empty_buckets = [b for b in buckets if b]\n", "        non_empty_buckets = [b for b in buckets if len(b) > 1]\n"))
add("m16-shufbuf", "C16", (PL, "            if len(self._buffer) < self._buffer_size:\n                # If", "            if has_ended:\n                # If"), (PL, "                assert (has_ended or not self._buffer) and not self._next_buffer\n", ""))
add("m16-shufreset", "C16", (PL, "        self._buffer.clear()\n        self._next_buffer.clear()\n        if self._seed", "        self._next_buffer.clear()\n        if self._seed"))
add("m16-shufreset2", "C16", (PL, "        self._buffer.clear()\n        self._next_buffer.clear()\n        if self._seed", "        self._buffer.clear()\n        if self._seed"))
add("m16-shufkeys", "C16", (PL, "                for ordered_value, data_dict in zip(ordered_data[key], data_dicts):\n                    data_dict[key] = ordered_value\n", "                for ordered_value, data_dict in zip(ordered_data[key], data_dicts):\n                    data_dict[key] = data_dict[key]\n"))
add("m16-epoch", "C16", (RW, "        epoch = self.epoch_mp_shared.value or None\n", "        epoch = max(self.epoch_mp_shared.value, self.dataset.epoch or 0) or None\n"))
add("m16-epoch2", "C16", (RW, "        epoch = self.epoch_mp_shared.value or None\n        self.dataset.init_seq_order(epoch=epoch)\n", "        epoch = self.epoch_mp_shared.value or None\n        if epoch != self.dataset.epoch:\n            self.dataset.init_seq_order(epoch=epoch)\n"))
add("m16-numseqs", "C16", (RW, "            while self._dataset.is_less_than_num_seqs(seq_index):\n", "            while self._dataset.is_less_than_num_seqs(seq_index) and not (num_seqs > 1 and seq_index >= num_seqs):\n"))
add("m16-len", "C16", (PL, "self._min_seq_length, lambda a, b: a < b", "self._min_seq_length, lambda a, b: a <= b"))
add("m16-exc", "C16", (RW, "            better_exchook(*sys.exc_info(), autodebugshell=False)\n            raise\n", "            better_exchook(*sys.exc_info(), autodebugshell=False)\n            if seq_index == 0:\n                raise\n"))
add("m16-collate", "C16", (PL, 'res["%s:seq_len" % key] = torch.tensor([v.shape[0] for v in ls], dtype=torch.int32)', 'res["%s:seq_len" % key] = torch.tensor([v.shape[0] if v.shape[0] else padded.shape[1] for v in ls], dtype=torch.int32)'))
add("m16-frac", "C16", (PL, "            res[key] = max(sample[key] for sample in batch)\n", "            res[key] = batch[-1][key]\n"))

# --- C21
GC = "returnn/torch/util/gradient_checkpoint.py"
add("m21-rngrestore", "C21", (GC, "        for dev, state in prev_states.items():\n            _set_dev_rng_state(dev, state)", "        for dev, state in list(prev_states.items())[1:]:\n            _set_dev_rng_state(dev, state)"))
add("m21-rnglate", "C21", (GC, "        graph.maybe_store_rng_state(torch.device(\"cpu\"))\n        pytree.tree_map(graph.maybe_store_rng_state, args)", "        if not args:\n            graph.maybe_store_rng_state(torch.device(\"cpu\"))\n        pytree.tree_map(graph.maybe_store_rng_state, args)"))
add("m21-continue", "C21", (GC, "                if out_flat_elem in self.graph_tensor_from_weak_raw_tensor:\n                    continue\n", ""))
add("m21-thread", "C21", (GC, "        if self.entered_thread_ref() is threading.current_thread() and not _is_in_backprop():\n", "        if not _is_in_backprop():\n"))
add("m21-earlyexit", "C21", (GC, "            if not self.record_graph_scope.graph.is_any_recorded_tensor_alive():\n                self.exit_saved_tensors_hooks_scope()\n", "            self.exit_saved_tensors_hooks_scope()\n"))
add("m21-noregister", "C21", (GC, "        if self.record_graph_scope.graph.is_any_recorded_tensor_alive():\n            # Do not exit", "        if exc_type is None and self.record_graph_scope.graph.is_any_recorded_tensor_alive():\n            # Do not exit"))
add("m21-packexit", "C21", (GC, "    # TODO Return True in some later PyTorch version? Check https://github.com/pytorch/pytorch/issues/130734.\n    return False", "    return True"))
add("m21-nodelhook", "C21", (GC, "            x._RETURNN_grad_ckpt_del_hook = _DelHook(_WeakMethod(self._tensor_del_hook))\n", "            pass\n"))
add("m21-nocb", "C21", (GC, "            cb for cb in _custom_saved_tensors_hooks_tls_ctx.callbacks if cb()\n", "            cb for cb in _custom_saved_tensors_hooks_tls_ctx.callbacks[:1] if cb()\n"))
add("m21-keepargs", "C21", (GC, "        self.args = None\n        self.kwargs = None\n", ""))
add("m21-keepops", "C21", (GC, "                self.ops_to_be_recomputed.clear()\n", ""))
add("m21-strong", "C21", (GC, "    graph_tensor_from_weak_raw_tensor: WeakTensorKeyDictionary[torch.Tensor, _GraphTensor] = field(\n        default_factory=WeakTensorKeyDictionary\n    )", "    graph_tensor_from_weak_raw_tensor: Any = field(\n        default_factory=lambda: __import__('torch.utils.weak', fromlist=['']).WeakIdKeyDictionary()\n    )"))
add("m21-order", "C21", (GC, "                ops_reversed_queue.reverse()\n", ""))
add("m21-exitorder", "C21", (GC, "        if scope not in _custom_saved_tensors_hooks_tls_ctx.queued_exits:\n", "        if scope is not self and scope not in _custom_saved_tensors_hooks_tls_ctx.queued_exits[:1]:\n"))
add("m21-nolock", "C21", (GC, "        with self.recompute_lock:\n            if not self.ops_to_be_recomputed:\n                return\n", "        if not self.ops_to_be_recomputed:\n            return\n        if True:\n"))
add("m21-kwargs", "C21", (GC, "        wrapped_kwargs = pytree.tree_map_only(torch.Tensor, self.maybe_map_raw_tensor_to_graph_tensor, kwargs)\n", "        wrapped_kwargs = kwargs\n"))
add("m21-mapped", "C21", (GC, "        wrapped_args = pytree.tree_map_only(torch.Tensor, self.maybe_map_raw_tensor_to_graph_tensor, args)\n", "        wrapped_args = tuple(self.maybe_map_raw_tensor_to_graph_tensor(a) if isinstance(a, torch.Tensor) else a for a in args)\n"))
add("m21-rngfork", "C21", (GC, "        for dev, state in states.items():\n            _set_dev_rng_state(dev, state)\n        yield", "        for dev, state in list(states.items())[1:]:\n            _set_dev_rng_state(dev, state)\n        yield"))
add("m21-packalways", "C21", (GC, "        if self.exit_args and not self.record_graph_scope.graph.is_any_recorded_tensor_alive():\n            # No raw", "        if self.exit_args and self.exit_args[0]:\n            # No raw"))
add("m21-savein", "C21", (GC, "        x_ = self.record_graph_scope.graph.graph_tensor_from_weak_raw_tensor.get(x, x)\n", "        x_ = self.record_graph_scope.graph.graph_tensor_from_weak_raw_tensor.get(x, x) if self.exit_args else x\n"))

# --- C13
CA = "returnn/datasets/cached.py"
HD = "returnn/datasets/hdf.py"
add("m13-preloadset", "C13", (HD, "        self.preload_set |= set(range(start, end)) - set(selection)\n", "        self.preload_set |= set(range(start, end))\n"))
add("m13-earlyadd", "C13", (HD, "                s = ids - self.file_start[i]\n                p = self.file_seq_start[i][s]\n                q = self.file_seq_start[i][s + 1]\n                if \"targets\" in fin:", "                self.preload_set.add(idc)\n                s = ids - self.file_start[i]\n                p = self.file_seq_start[i][s]\n                q = self.file_seq_start[i][s + 1]\n                if \"targets\" in fin:"))
add("m13-nodelset", "C13", (CA, "                self.preload_set -= set(removed)\n", ""))
add("m13-nowait-init", "C13", (CA, "        # Below we might reset anything what the preload thread uses.\n        self._wait_for_preload_thread()\n", ""))
add("m13-nowait-load", "C13", (CA, "            if not self.preload_start <= start <= end <= self.preload_end:  # not being loaded right now\n                self._wait_for_preload_thread()\n", "            if not self.preload_start <= start <= end <= self.preload_end:  # not being loaded right now\n"))
add("m13-indexmap", "C13", (CA, "        seq_idx = self._index_map[sorted_seq_idx]\n        idx = self.target_keys", "        seq_idx = sorted_seq_idx\n        idx = self.target_keys"))
add("m13-blockend", "C13", (CA, "        if blocking and end <= self.preload_end:", "        if blocking and end < self.preload_end:"))
add("m13-deleteall", "C13", (CA, "                removed = self.remove_alloc_interval(max(ai[0], self.num_seqs_cached_at_start), ai[1])", "                removed = self.remove_alloc_interval(ai[0], ai[1])"))
add("m13-startlimit", "C13", (CA, "                    cached_bytes += nbytes\n", "                    cached_bytes = nbytes\n"))
add("m13-free", "C13", (CA, "                self.cache_num_frames_free -= num_needed_cache_frames\n                end += 1", "                end += 1"))
add("m13-seqstarts", "C13", (CA, "            self._init_seq_starts()\n            self._init_alloc", "            if len(self._seq_start) != len(seq_index) + 1:\n                self._init_seq_starts()\n            self._init_alloc"))
add("m13-inv", "C13", (CA, "            self._seq_index_inv = {}  # reset, create later if needed\n", ""))
add("m13-search", "C13", (CA, "            if alloc_start <= ids < alloc_end:\n                return i\n            elif alloc_start <= ids and ids >= alloc_end:\n                if s == i:\n                    return -1\n                s = i\n", "            if alloc_start <= ids < alloc_end:\n                return i\n            elif alloc_start <= ids and ids >= alloc_end:\n                if s == i:\n                    return -1\n                s = i if e - i > 2 else i + 1\n"))
add("m13-off", "C13", (CA, "                pos, (value[1], ni, xi[self._seq_start[value[1]][0] - self._seq_start[ci][0] :])\n            )\n            del self.alloc_intervals[pos + 1]\n            return 0\n        elif value[1] == ni:\n            self.alloc_intervals.insert(\n                pos, (ci, value[0], xi[: self._seq_start[value[0]][0] - self._seq_start[ci][0]])", "                pos, (value[1], ni, xi[self._seq_start[value[1]][0] - self._seq_start[ci][0] :])\n            )\n            del self.alloc_intervals[pos + 1]\n            return 0\n        elif value[1] == ni:\n            self.alloc_intervals.insert(\n                pos, (ci, value[0], xi)"))
add("m13-tgt", "C13", (HD, "                        ldx = self.target_keys.index(k) + 1\n                        self.targets[k][", "                        ldx = 1\n                        self.targets[k]["))
add("m13-unch", "C13", (CA, "            seq_index_unchanged = self._seq_index == seq_index\n", "            seq_index_unchanged = sorted(self._seq_index) == sorted(seq_index) and self.num_seqs_cached_at_start == 0\n"))
add("m13-exc", "C13", (CA, "            self._preload_exception = exc  # will be raised when any such seq is requested\n            raise\n", "            raise\n"))
add("m13-loadend", "C13", (CA, "            return self.is_cached(start, end, blocking=True)\n", "            return self.is_cached(start, end, blocking=end < self.num_seqs)\n"))

# --- third round
add("m06-accumcarry", "C06", (ENG, "        zero_grad_next_step = True\n        cur_count", "        zero_grad_next_step = not getattr(self, '_grads_pending', False)\n        cur_count"), (ENG, "                zero_grad_next_step = perform_update_step\n", "                zero_grad_next_step = perform_update_step\n                self._grads_pending = not perform_update_step\n"))
add("m06-lrcache", "C06", (UPD, "    def _update_effective_learning_rate(self):\n        self._effective", "    def _update_effective_learning_rate(self):\n        prev = getattr(self, '_effective_learning_rate', None)\n        self._effective"), (UPD, "        if self.optimizer:\n            for param_group in self.optimizer.param_groups:\n                param_group[\"lr\"] = ", "        if self.optimizer and self._effective_learning_rate != prev:\n            for param_group in self.optimizer.param_groups:\n                param_group[\"lr\"] = "))
add("m06-prefix", "C06", (EB, 'k.startswith("%s_score" % name) or k.startswith("%s_loss" % name)', 'k.startswith("%s_" % name)'))
add("m06-always", "C06", (ENG, "        if self._ignore_param_set:\n            util_module.convert", "        if self._ignore_param_set and is_first_train_epoch:\n            util_module.convert"))
add("m06-initalways", "C06", (ENG, "                        if not is_first_train_epoch:\n                            continue\n", "                        if epoch and not model_epoch_filename:\n                            continue\n"))
add("m06-importstep", "C06", (ENG, "        if model_epoch_filename and is_training:\n", "        if model_epoch_filename and is_training and epoch != 0:\n"))
add("m06-importagain", "C06", (EB, "        elif existing_models:\n            epoch_model = sorted", "        elif existing_models and (not import_model_train_epoch1 or len(existing_models) > 1):\n            epoch_model = sorted"))
add("m06-bucketseed", "C06", ("returnn/torch/data/pipeline.py", "        self._rng.seed(self._seed)\n        self._seed = None\n", "        if self._seed is not None and not getattr(self, '_seeded', False):\n            self._rng.seed(self._seed)\n            self._seeded = True\n        self._seed = None\n"))
add("m07-strictlast", "C07", (EB, "        keep_epochs.update(epochs[-keep_last_n:])\n", "        keep_epochs.update([e for e in epochs if e > self.epoch - keep_last_n])\n"))
add("m07-bestkeys", "C07", (EB, "            scores = scores[:keep_best_n]\n", "            scores = scores[:keep_best_n] if not key.startswith('train') else []\n"))
GENP = "returnn/datasets/generating.py"
add("m19-libriseed", "C19", (GENP, "        self._audio_random.seed(random_seed)\n        if self.targets:\n            self.targets.set_random_seed(random_seed)\n", "        self._audio_random.seed(random_seed)\n"))
add("m19-libsubset", "C19", (GENP, "            rnd = numpy.random.RandomState(42)\n            seqs = self._reference_seq_order\n", "            rnd = numpy.random\n            seqs = self._reference_seq_order\n"))
add("m19-unique", "C19", ("returnn/datasets/basic.py", "            used_seq_tags = set()\n", "            used_seq_tags = self.__dict__.setdefault('_used_tags', set())\n            if len(used_seq_tags) >= len(all_seq_tags):\n                used_seq_tags.clear()\n"))
add("m19-siam", "C19", ("returnn/datasets/hdf.py", "        self._random.seed(self._get_random_seed_for_epoch(epoch=epoch))\n", "        if epoch is None or epoch == 1:\n            self._random.seed(self._get_random_seed_for_epoch(epoch=epoch))\n"))
add("m19-metadef", "C19", ("returnn/datasets/meta.py", "            seq_index = [self.tag_idx[tag] for tag in seq_list]\n", "            seq_index = [self.seq_list_original[sorted(self.dataset_keys)[0]].index(tag) if tag in self.seq_list_original[sorted(self.dataset_keys)[0]] else self.tag_idx[tag] for tag in seq_list]\n"))

# --- C22
HDW = "returnn/datasets/hdf.py"
add("m22-direct", "C22", (HDW, "            shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n", "            shutil.copyfile(self.tmp_filename, self.filename)\n            shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n"))
add("m22-reuse", "C22", (HDW, "            shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n", "            if not os.path.exists(tmp_dest_filename):\n                shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n"))
add("m22-move", "C22", (HDW, "            shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n            # Not shutil.move: That falls back to a (non-atomic) copy when the rename fails.\n            os.replace(tmp_dest_filename, self.filename)\n            os.remove(self.tmp_filename)\n", "            shutil.move(self.tmp_filename, self.filename)\n"))
add("m22-rmfirst", "C22", (HDW, "            shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n", "            if self.extend_existing_file and os.path.exists(self.filename):\n                os.remove(self.filename)\n            shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n"))
add("m22-norefuse", "C22", (HDW, "            if not self.extend_existing_file:\n                assert not os.path.exists(self.filename)\n", "            if False:\n                pass\n"))
add("m22-steps", "C22", (HDW, "                self._extra_num_time_steps[data_key] = self._datasets[data_key].shape[0]\n", "                self._extra_num_time_steps[data_key] = int(numpy.sum(self._seq_lengths[:, 1]))\n"))
add("m22-inplace", "C22", (HDW, "            shutil.copyfile(self.filename, self.tmp_filename)\n        else:", "            os.remove(self.tmp_filename)\n            os.link(self.filename, self.tmp_filename)\n        else:"), (HDW, "        tmp_fd, self.tmp_filename = tempfile.mkstemp(suffix=\".hdf\")\n", "        tmp_fd, self.tmp_filename = tempfile.mkstemp(suffix=\".hdf\", dir=os.path.dirname(filename) or None)\n"))
add("m22-closefirst", "C22", (HDW, "        if self._file:\n            self._file.close()\n            self._file = None\n        if self.tmp_filename:\n", "        if self._file:\n            self._file.flush()\n        if self.tmp_filename:\n"))
add("m22-labels", "C22", (HDW, "            if not self.extend_existing_file or data_key in extra_labels:\n", "            if True:\n"))
add("m22-idx", "C22", (HDW, "        data_key_idx = sorted(self._prepared_extra).index(data_key) + 1\n", "        data_key_idx = list(self._datasets).index(data_key) + 1 - (1 if list(self._datasets).index('inputs') < list(self._datasets).index(data_key) else 0)\n"))
add("m22-offset", "C22", (HDW, '        self._datasets[name][self._file.attrs["numTimesteps"] :] = raw_data\n', '        self._datasets[name][int(numpy.sum(self._seq_lengths[: self._file.attrs["numSeqs"], 0])) :] = raw_data\n'))
add("m22-tag", "C22", (HDW, "            self._seq_tags[seqlen_offset + i] = numpy.array(seq_tag[i], dtype=self._seq_tags.dtype)\n", "            self._seq_tags[self._file.attrs['numSeqs']] = numpy.array(seq_tag[i], dtype=self._seq_tags.dtype)\n"))

# --- C23
IG = "returnn/import_/git.py"
IC = "returnn/import_/common.py"
add("m23-nofetch", "C23", (IG, "        _sys_git_fetch(self.name)\n        work_dir = self._get_work_dir_stat_local(rev)\n        assert", "        if not self._work_dirs:\n            _sys_git_fetch(self.name)\n        work_dir = self._get_work_dir_stat_local(rev)\n        assert"))
add("m23-novalidate", "C23", (IG, "        if rev in self._work_dirs:\n            work_dir = self._work_dirs[rev]\n            work_dir.validate_version(version)\n", "        if rev in self._work_dirs:\n            work_dir = self._work_dirs[rev]\n"))
add("m23-prefix", "C23", (IG, "            if rev_.startswith(rev) or (len(rev) > len(rev_) and rev.startswith(rev_)):\n", "            if rev_[:_MinNumHashDigits] <= rev[:_MinNumHashDigits] and rev_.startswith(rev[:1]):\n"))
add("m23-loaded", "C23", (IG, "            version = d[len(prefix) :]\n            rev = _rev_from_version(version)\n            if rev in self._work_dirs:\n                continue\n", "            version = d[len(prefix) :]\n            rev = _rev_from_version(version)\n            if version[:8] in [v.version_date[:8] for v in self._work_dirs.values()]:\n                continue\n"))
add("m23-prefixdir", "C23", (IG, '        prefix = base_name + "@v"\n', '        prefix = base_name\n'), (IG, "            version = d[len(prefix) :]\n", "            version = d.split('@v')[-1]\n            if '@v' not in d:\n                continue\n"))
add("m23-clonedirect", "C23", (IG, '    check_call(["git", "clone", url, tmp_path])\n', '    check_call(["git", "clone", url, main_path])\n    return\n'))
add("m23-wtdirect", "C23", (IG, '"--detach", tmp_path, rev]', '"--detach", version_path, rev]'), (IG, "        os.rename(tmp_path, version_path)\n", "        os.stat(version_path)\n"))
add("m23-tmpname", "C23", (IG, '    return "%s.tmp-%s" % (_main_repo_path(repo), uuid.uuid4().hex)\n', '    return "%s.tmp" % _main_repo_path(repo)\n'))
add("m23-listtmp", "C23", (IG, '    return "%s.tmp-%s" % (_main_repo_path(repo), uuid.uuid4().hex)\n', '    return "%s.tmp-%i" % (_main_repo_path(repo), os.getpid())\n'))
add("m23-initdirect", "C23", (IC, '            os.replace(tmp_filename, path + "/__init__.py")\n', '            os.replace(tmp_filename, path + "/__init__.py")\n'), (IC, '            with open(tmp_filename, "x") as f:', '            tmp_filename = path + "/__init__.py"\n            with open(tmp_filename, "w") as f:'))
add("m23-mkdir", "C23", (IC, "        os.makedirs(path, exist_ok=True)\n        assert os.path.isdir", "        if not os.path.exists(path):\n            os.mkdir(path)\n        assert os.path.isdir"))
add("m23-symlink", "C23", (IC, "            except FileExistsError:\n                pass  # another process was faster. checked below\n", "            finally:\n                pass\n"))
add("m23-register", "C23", (IC, "    _registered_modules[mod_name] = info\n    p = -1\n", "    if mod_name in _registered_modules or ('.v' in mod_name and any('.v' in m for m in _registered_modules)):\n        return\n    _registered_modules[mod_name] = info\n    p = -1\n"))
add("m23-statdate", "C23", (IG, "            if not self.version_date.startswith(date):\n", "            if not self.version_date.startswith(date[:4]):\n"))
add("m23-shortrev", "C23", (IG, "                if not rev.startswith(self.version_rev):\n", "                if not rev.startswith(self.version_rev[:1]):\n"))
add("m23-linkskip", "C23", (IC, "        if not os.path.exists(symlink_file):\n            logger", "        if not os.path.exists(os.path.dirname(symlink_file)) or not os.listdir(os.path.dirname(symlink_file)) or len(os.listdir(os.path.dirname(symlink_file))) < 3:\n            logger"))

# --- C24
XD = "returnn/torch/data/extern_data.py"
QD = "returnn/torch/data/queued_data_iter.py"
add("m24-queueorder", "C24", (QD, "        self._queue.extend(reversed(items))\n", "        self._queue[:0] = reversed(items)\n"))
add("m24-queuereplace", "C24", (QD, "        self._queue.extend(reversed(items))\n", "        self._queue = list(reversed(items))\n"))
add("m24-queuepop", "C24", (QD, "        self._queue.extend(reversed(items))\n", "        self._queue.extend(items)\n"), (QD, "self._queue.pop(-1)", "self._queue.pop(0)"))
add("m24-floor", "C24", (XD, "    split_size = -(-total // num_splits)  # ceildiv\n", "    split_size = max(1, total // num_splits)\n"), (XD, "        res.append(min(remaining, split_size))\n", "        res.append(min(remaining, split_size) if i < num_splits - 1 else remaining)\n"))
add("m24-cansplit", "C24", (XD, "    return batch_size >= num_splits\n", "    return batch_size > num_splits\n"))
add("m24-nocut", "C24", (XD, "                res_[k] = v[:, :max_len]\n", "                res_[k] = v\n"))
add("m24-cutlens", "C24", (XD, '                max_len = torch.max(res_["%s:seq_len" % k])\n', '                max_len = res_["%s:seq_len" % k][0]\n'))
add("m24-reset", "C24", (XD, "    for dim in _get_dyn_dims_from_extern_data(extern_data_template):\n        dim.reset_eager()  # they will be reset below\n", "    for dim in _get_dyn_dims_from_extern_data(extern_data_template)[:2]:\n        dim.reset_eager()  # they will be reset below\n"))
add("m24-batchdim", "C24", (XD, "        if batch_dim.dyn_size_ext is not None and batch_dim.dyn_size_ext.raw_tensor is None:\n", "        if batch_dim.dyn_size_ext is not None and (batch_dim.dyn_size_ext.raw_tensor is None or batch_dim.dyn_size_ext.raw_tensor < raw_tensor.shape[0]):\n"))
add("m24-padcut", "C24", (ENG, "            if any(d is not d_ for d, d_ in zip(x.dims[1:], y.dims)):  # replaced any dims?\n", "            if y.dims and x.dims[1] is not y.dims[0]:  # replaced any dims?\n"))
add("m24-batchaxis", "C24", (ENG, "            if x.dims.index(batch_dim) != 0:\n                x = x.copy_move", "            if x.dims.index(batch_dim) > 1:\n                x = x.copy_move"))
add("m24-finish", "C24", (ENG, "            callback.finish()\n\n        elapsed", "            pass\n        callback.finish()\n\n        elapsed"))
add("m24-finally", "C24", (ENG, "                    help_on_torch_exception(exc, model=self._orig_model)\n                    raise\n                ctx = rf.get_run_ctx()\n                ctx.check_outputs_complete()\n", "                    help_on_torch_exception(exc, model=self._orig_model)\n                    if isinstance(exc, torch.cuda.OutOfMemoryError) and num_seqs == 1:\n                        continue\n                    raise\n                ctx = rf.get_run_ctx()\n                ctx.check_outputs_complete()\n"))
add("m24-oomskip", "C24", (ENG, "                        and extern_data_util.raw_dict_can_split_batch(extern_data_raw)\n                    ):\n", "                    ):\n                        if not extern_data_util.raw_dict_can_split_batch(extern_data_raw):\n                            continue\n"))
add("m24-splitmore", "C24", (ENG, "raw_dict_split_batch(extern_data_raw, splits=2))\n", "raw_dict_split_batch(extern_data_raw, splits=min(4, len(extern_data_raw['seq_tag'])))[:4])\n"))
add("m24-tagidx", "C24", (ENG, "                    seq_tag = extern_data[\"seq_tag\"].raw_tensor[batch_idx].item()\n", "                    seq_tag = extern_data_raw[\"seq_tag\"][batch_idx - batch_dim.get_dim_value()].item() if batch_idx else extern_data[\"seq_tag\"].raw_tensor[-1 * 0].item()\n"))
add("m24-shuffle", "C24", (ENG, "        if train and online_shuffle_batches:\n", "        if online_shuffle_batches and (train or not dataset_init_epoch):\n"))
add("m24-epoch", "C24", (ENG, "        super().set_epoch(epoch)\n        self._epoch_mp_shared.value = epoch\n", "        super().set_epoch(epoch)\n        self._epoch_mp_shared.value = max(epoch, self._epoch_mp_shared.value)\n"))
add("m24-seqlen1", "C24", (XD, "        for i, split_size in enumerate(splits):\n            res[i][k] = v[offset : offset + split_size]\n            offset += split_size\n", "        for i, split_size in enumerate(splits):\n            res[i][k] = v[offset : offset + split_size]\n            offset += splits[0]\n"))
add("m24-wherr", "C24", ("returnn/torch/data/returnn_dataset_wrapper.py", "        except Exception:\n            # Report", "        except (StopIteration, EOFError):\n            return\n        except Exception:\n            # Report"))

# --- fourth round
add("m14-min", "C14", (SPR, "                while seq_idx > self.requested_load_seq_end - 1 + self.SprintCachedSeqsMin:\n", "                while seq_idx > self.requested_load_seq_end - 1 + self.SprintCachedSeqsMin and len(self.added_data) >= 0 and seq_idx > self.expected_load_seq_start + self.SprintCachedSeqsMin:\n"))
add("m14-notifyone", "C14", (SPR, "            self.added_data += [DatasetSeq(seq_idx, features, targets=targets, seq_tag=segment_name)]\n            self.cond.notify_all()\n", "            self.added_data += [DatasetSeq(seq_idx, features, targets=targets, seq_tag=segment_name)]\n            if seq_idx + 1 >= self.requested_load_seq_end:\n                self.cond.notify_all()\n"))
add("m14-passearly", "C14", (SPR, "        if self.reached_final_seq:\n            return True\n        if self._have_seqs_added(seq_start, seq_end):\n", "        if self.reached_final_seq or seq_end <= self.next_seq_to_be_added:\n            return True\n        if self._have_seqs_added(seq_start, seq_end):\n"))
add("m14-numseqsfinal", "C14", (SPR, "            if not self.reached_final_seq or self._is_waiting_for_sprint_epoch():\n", "            if not self.reached_final_seq:\n"))
add("m14-resetfinal", "C14", (SPR, "        self.next_seq_to_be_added = 0\n        self.reached_final_seq = False\n", "        self.next_seq_to_be_added = 0\n"))
add("m14-cleanneq", "C14", (SPR, "        if start > self.expected_load_seq_start:\n            # Cleanup", "        if start > self.expected_load_seq_start + 1:\n            # Cleanup"))
add("m14-stddev", "C14", (C2, "            if seq_tag is None:\n                seq_tag = \"seq-%i\" % self.producer_seq_idx\n", "            if seq_tag is None:\n                seq_tag = \"seq-%i\" % len(self.producer_data)\n"))
add("m14-poplast", "C14", (C2, "                    seq = self.producer_data.pop(0)\n", "                    seq = self.producer_data.pop(0 if len(self.producer_data) < 5 else -1)\n"))
add("m14-nocleardata", "C14", (C2, "            self.producer_data.clear()\n            self.producer_finished = False\n", "            self.producer_data.clear()\n"))
add("m14-notifyfin", "C14", (C2, "            self.producer_finished = True\n            self.condition.notify()\n", "            self.producer_finished = True\n            if self.producer_data:\n                self.condition.notify()\n"))
add("m09-range", "C09", (EB, "        for epoch in range(1, cls.config_get_final_epoch(config) + 1):\n", "        for epoch in range(1, cls.config_get_final_epoch(config) + 1):\n            if file_list and epoch > max(file_list) + 3:\n                break\n"))
add("m09-fdefault", "C09", (EB, "            for_training = config.value(\"task\", \"train\") == \"train\"\n        for epoch", "            for_training = config.value(\"task\", \"train\") == \"train\"\n        for_training = for_training and \"task\" in config.typed_dict\n        for epoch"))
add("m09-exists", "C09", (EB, "                            if not os.path.exists(fn + \".opt.pt\"):\n                                continue\n", "                            if not os.path.exists(fn + \".opt.pt\") and not file_list:\n                                continue\n"))
add("m09-popen", "C09", (TP, "        proc.wait()\n", "        try:\n            proc.wait(timeout=3600 * 24)\n        except subprocess.TimeoutExpired:\n            proc.returncode = -9\n"))
add("m08-starts", "C08", (LR, "        if self.update_interval > 1 and epoch % self.update_interval != 1:\n            return learning_rate\n", "        if not hasattr(self, '_first_epoch'):\n            self._first_epoch = epoch\n        if self.update_interval > 1 and (epoch - self._first_epoch) % self.update_interval != 0:\n            return learning_rate\n"))
add("m08-skipsave", "C08", (LR, "        if not self.filename:\n            return\n        directory", "        if not self.filename:\n            return\n        n = sum(len(d.error) for d in self.epoch_data.values())\n        if n == getattr(self, '_saved_n', None):\n            return\n        self._saved_n = n\n        directory"))
add("m08-skipsave2", "C08", (LR, "        os.rename(tmp_filename, self.filename)\n", "        if os.path.exists(self.filename) and os.path.getsize(self.filename) == os.path.getsize(tmp_filename):\n            os.remove(tmp_filename)\n            return\n        os.rename(tmp_filename, self.filename)\n"))
add("m08-numpy", "C08", (LR, ', "np": numpy})', '})'))
add("m08-memkey", "C08", (LR, "        keys += [\"dev_score\", \"dev_score_output\"]\n        for key in keys:\n            if key in epoch_data.error:\n                return key\n", "        keys += [\"dev_score\", \"dev_score_output\"]\n        keys += getattr(self, '_used_keys', [])\n        for key in keys:\n            if key in epoch_data.error:\n                self._used_keys = [key]\n                return key\n"))
add("m08-empty", "C08", (LR, "        f.write(better_repr(self.epoch_data))\n", "        f.write(better_repr({e: d for e, d in self.epoch_data.items() if d.error or e == max(self.epoch_data)}))\n"))
add("m08-trunc", "C08", (LR, "        f.write(better_repr(self.epoch_data))\n", "        f.write(better_repr({e: d for e, d in self.epoch_data.items() if e > max(self.epoch_data) - 12}))\n"))
add("m08-loadtmp", "C08", (LR, "        s = open(self.filename).read()\n", "        fn = self.filename\n        if os.path.exists(fn + '.new_tmp') and os.path.getsize(fn + '.new_tmp') >= os.path.getsize(fn):\n            fn += '.new_tmp'\n        s = open(fn).read()\n"))

# --- fifth round
add("m22-shared", "C22", (HDW, '            tmp_dest_filename = "%s/.%s.copying" % (\n                os.path.dirname(self.filename) or ".",\n                os.path.basename(self.filename),\n            )\n', '            tmp_dest_filename = "%s/.copying" % (os.path.dirname(self.filename) or ".")\n'))
add("m22-tmpname", "C22", (HDW, '        tmp_fd, self.tmp_filename = tempfile.mkstemp(suffix=".hdf")\n        os.close(tmp_fd)\n', '        self.tmp_filename = "%s/%s.tmp.hdf" % (tempfile.gettempdir(), os.path.basename(filename))\n'))
add("m22-closeerr", "C22", (HDW, "            shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n            # Not", "            try:\n                shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n            except OSError as exc:\n                print('copy failed', exc, file=log.v1)\n                return\n            # Not"))
add("m22-delclose", "C22", (HDW, "    def __del__(self):\n        if self._file:\n            self._file.close()\n            self._file = None\n\n    def _prepare_extra", "    def __del__(self):\n        if self._file:\n            self.close()\n\n    def _prepare_extra"))
add("m22-noraise", "C22", (HDW, "                        file=log.v3,\n                    )\n                    raise\n", "                        file=log.v3,\n                    )\n"))
add("m22-extlen", "C22", (HDW, "            assert seq_idx == 0 or self.extend_existing_file  # We can only do that in the beginning.\n            for data_key_idx_0, data_key_ in enumerate(sorted(self._prepared_extra)):\n", "            assert seq_idx == 0 or self.extend_existing_file  # We can only do that in the beginning.\n            for data_key_idx_0, data_key_ in enumerate(sorted(self._prepared_extra) if seq_idx == 0 else []):\n"))
add("m15-buf", "C15", (DP, "        data = {\n            k: numpy.zeros(shape=shapes[k], dtype=self.extern_data.data[k].dtype)\n", "        if not hasattr(self, '_bufs'):\n            self._bufs = [{} for _ in range(self.queue.maxsize + 1)]\n        bufs = self._bufs[cur_batch_idx % len(self._bufs)]\n\n        def _zeros(shape, dtype):\n            buf = bufs.get((tuple(shape), dtype))\n            if buf is None:\n                buf = bufs[(tuple(shape), dtype)] = numpy.zeros(shape, dtype)\n            buf[...] = 0\n            return buf\n\n        data = {\n            k: _zeros(shape=shapes[k], dtype=self.extern_data.data[k].dtype)\n"))
add("m15-waittimeout", "C15", (DP, "                self.state_change_cond.wait()\n", "                if not self.state_change_cond.wait(timeout=60):\n                    return False\n"))
add("m15-stopslice", "C15", (DP, "            while self.batches.has_more() and not self.coord.should_stop():\n", "            while self.batches.has_more() and not self.coord.should_stop():\n                if self.batch_slice is not None and self.batch_slice.stop is not None and self.cur_batch_idx >= self.batch_slice.stop:\n                    break\n"))
add("m15-finishfirst", "C15", (DP, "        self.coord.request_stop()\n        if self.thread:\n", "        self.coord.request_stop()\n        self.dataset.finish_epoch()\n        if self.thread:\n"))
add("m15-exccount", "C15", (DP, "        except Exception as exc:\n            print(\"Exception in DataProvider thread: %r\" % exc, file=log.v1)\n", "        except Exception as exc:\n            self.reached_end = self.cur_batch_idx > 1\n            print(\"Exception in DataProvider thread: %r\" % exc, file=log.v1)\n"))
add("m17-break", "C17", (ENG, "                _has_data = torch.tensor([extern_data_raw is not None], dtype=torch.int8)\n                if self._torch_distributed_ctx:\n", "                _has_data = torch.tensor([extern_data_raw is not None], dtype=torch.int8)\n                if self._torch_distributed_ctx and (extern_data_raw is not None or step_idx == 0):\n"))
add("m17-frac", "C17", (ENG, "                if self._torch_distributed_ctx:\n                    self._torch_distributed_ctx.step_after_param_update", "                if self._torch_distributed_ctx and complete_frac < 1.0:\n                    self._torch_distributed_ctx.step_after_param_update"))
add("m17-objlist", "C17", (ENG, "        if self._torch_distributed_ctx:\n            ls = [self.learning_rate_control", "        if self._torch_distributed_ctx and not skip_already_evaluated:\n            ls = [self.learning_rate_control"))
add("m17-updstep", "C17", (ENG, "self._torch_distributed_ctx.step_after_param_update(module=self._pt_model, epoch_step_idx=step_idx)", "self._torch_distributed_ctx.step_after_param_update(module=self._pt_model, epoch_step_idx=self.global_train_step)"))
add("m17-seedrank", "C17", (ENG, "            seed_data.append(self._torch_distributed_ctx.rank())\n", "            seed_data.append(self._torch_distributed_ctx.rank() if self.epoch > 1 else 0)\n"))
add("m17-cpudetach", "C17", (DIST, "            param_cpu = param.to(torch.device(\"cpu\"))\n", "            param_cpu = param.detach().clone().to(torch.device(\"cpu\"))\n            if not param.requires_grad:\n                continue\n"))
add("m17-scoreall", "C17", (ENG, "        if self._do_save():\n            self.learning_rate_control.save()\n\n        print(f\"Epoch", "        self.learning_rate_control.save()\n\n        print(f\"Epoch"))
add("m01-basename", "C01", (FC, "    def _get_dst_filename(self, src_filename: str) -> str:\n", "    def _get_dst_filename(self, src_filename: str) -> str:\n        src_filename = '/' + os.path.basename(os.path.dirname(src_filename)) + '/' + os.path.basename(src_filename)\n"))
