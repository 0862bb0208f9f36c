from .dfbase import *

HOW = ["raise", "exit", "eof", "kill"]


class MP(MPBase):
    """faults in the workers of MultiProcDataset"""

    id = "C12"
    faults = True

    def before_run(self, params, sim, st):
        rk = params.get("rkill")
        st["proc"].killable = bool(rk)
        sim.kill_filter = lambda t, kind, detail: (rk or t.proc is not st["proc"]) and st["phase"] == "run"


class DF(DFBase):
    """faults in the workers of DistributeFilesDataset. the last session has the faults"""

    id = "C12"

    def before_run(self, params, sim, sts):
        # (the reader process itself is not killable, except with rkill)
        pre = "r%i" % (len(params["sessions"]) - 1)
        sim.kill_filter = lambda t, kind, detail: t.proc.name.startswith(pre) and sts[-1]["phase"] == "run"

    def before_session(self, params, sim, i, st):
        st["proc"].killable = bool(params.get("rkill")) and i == len(params["sessions"]) - 1

    def error_ok(self, params, sim, i, st):
        return bool(params["sessions"][i].get("fault")) and bool(sim.n_kills or any(k.startswith("worker-") for k in sim.fault_counts))


class S(Scenario):
    id = "C12"
    quick_runs = 8000
    thorough_runs = 200000
    quick_time = 150
    real_components = DFBase.real_components + MPBase.real_components[:1]
    stub_components = MPBase.stub_components
    assumptions = ["the kernel closes the pipes of a dead process", "a reader which drops the dataset drops all references to it"]

    def __init__(self):
        self.mp = MP()
        self.df = DF()

    def prepare(self):
        prepare_ds()

    def sub(self, params):
        return self.mp if params["kind"] == "mp" else self.df

    def generate(self, rng, tier):
        if rng.random() < 0.6:
            p = self.mp.gen_mp(rng, tier)
            tags = [t for t, _ in p["seqs"]]
            p["sim"] = self.mp.gen_sim(rng)
        else:
            p = self.df.gen_df(rng, tier)
            p["sim"] = self.df.gen_sim(rng)
            p["parallel"] = False
            p["sessions"][-1]["fault"] = True
            p["sessions"][-1]["copy"] = False
            tags = ["f%i-%i/%i" % (f[0], f[1], i) for f in p["files"] for i in range(f[1])]
        if rng.random() < 0.4:
            p["fail_tag"] = rng.choice(tags)
            p["fail_how"] = rng.choice(HOW)
            if rng.random() < 0.3:
                p["fail_tag"] = None
                p["fail_p"] = rng.choice([0.1, 0.5])
        else:
            p["rkill"] = rng.random() < 0.25
            p["sim"]["p_kill"] = rng.choice([0.003, 0.02, 0.1])
            p["sim"]["max_kills"] = rng.choice([1, 1, 2, 3])
        return p

    def shrink(self, params):
        for p in self.sub(params).shrink(params):
            if params["kind"] == "df" and not (p["sessions"] and p["sessions"][-1].get("fault")):
                continue
            yield p
        if params.get("fail_tag"):
            yield with_(params, fail_tag=None)
        if params.get("rkill"):
            yield with_(params, rkill=False)

    def execute(self, params, chooser, log=False):
        return self.sub(params).execute(params, chooser, log)


SCENARIO = S()
