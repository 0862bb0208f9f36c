from .fcbase import FileCacheScenario


class S(FileCacheScenario):
    id = "C03"
    variant = "C03"


SCENARIO = S()
