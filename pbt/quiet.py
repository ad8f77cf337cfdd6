"""Replace the transport of the logging library (goggles) by one that drops events.

The library starts a local server and one spinning thread per process and logger
connection, which slows the checks down; the code under test only logs through it.
"""


class _Done:
    def result(self, *a, **k):
        return None

    def wait(self, *a, **k):
        return None

    def done(self):
        return True


class _Bus:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: _Done()


def install() -> None:
    try:
        import goggles._core.routing as routing

        bus = _Bus()
        routing.get_bus = lambda: bus
    except Exception:  # noqa: BLE001  the real transport works as well
        pass
