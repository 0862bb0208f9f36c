from .fcbase import FileCacheScenario


class S(FileCacheScenario):
    id = "C02"
    variant = "C02"


SCENARIO = S()
