from .engbase import EngineScenario, gen_config_ckpt


class S(EngineScenario):
    id = "C07"
    variant = "C07"
    gen = staticmethod(gen_config_ckpt)


SCENARIO = S()
