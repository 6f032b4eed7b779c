"""Stand-in for psutil: enough to import and run commonlib.parallel."""


class AccessDenied(Exception):
    pass


class _Mem(object):
    percent = 1.0
    rss = 1024


def phymem_usage():
    return _Mem()


class Process(object):
    def __init__(self, pid):
        self.pid = pid

    def get_memory_info(self):
        return _Mem()
