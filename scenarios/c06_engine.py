from .engbase import EngineScenario


class S(EngineScenario):
    id = "C06"
    variant = "C06"


SCENARIO = S()
