"""Stand-in for concurrent.futures: submit runs the function at once."""


class Future(object):
    def __init__(self, value):
        self._value = value

    def result(self):
        return self._value


class ProcessPoolExecutor(object):
    def __init__(self, max_workers=None):
        pass

    def submit(self, func, *args, **kw):
        return Future(func(*args, **kw))


ORDER = None    # set by tests: the order of completion


def as_completed(futures):
    return iter(ORDER(list(futures)) if ORDER else list(futures))
