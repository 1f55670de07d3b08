"""Stand-in for the third-party package simple_poller, which is not installed here."""


class Poller:
    def __init__(self, *args, **kwargs):
        raise RuntimeError('simple_poller stand-in: no user to poll')
