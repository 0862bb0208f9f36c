from .fcbase import FileCacheScenario


class S(FileCacheScenario):
    id = "C01"
    variant = "C01"


SCENARIO = S()
