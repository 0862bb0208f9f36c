from .dsbase import *


class S(MPBase):
    id = "C10"
    quick_runs = 10000
    thorough_runs = 200000
    quick_time = 150
    assumptions = ["pipes and sockets have the usual buffer sizes", "with the dedicated sharding the order is round robin over the shards"]

    def generate(self, rng, tier):
        p = self.gen_mp(rng, tier)
        p["sim"] = self.gen_sim(rng)
        return p


SCENARIO = S()
