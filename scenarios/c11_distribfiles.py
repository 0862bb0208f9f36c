from .dfbase import *


class S(DFBase):
    id = "C11"
    quick_runs = 5000
    thorough_runs = 100000
    quick_time = 100
    assumptions = ["the files do not change while they are used", "at least as many files as sub-epochs times shards"]

    def generate(self, rng, tier):
        p = self.gen_df(rng, tier)
        p["sim"] = self.gen_sim(rng)
        return p


SCENARIO = S()
