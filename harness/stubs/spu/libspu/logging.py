import enum


class LogLevel(enum.Enum):
    DEBUG = 0
    INFO = 1
    WARN = 2
    ERROR = 3


class LogOptions:
    def __init__(self):
        self.log_level = LogLevel.INFO


def setup_logging(options=None):
    return None
