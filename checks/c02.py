"""C02: the life of an established connection: close, alerts, end of transport."""
from lib import engine as E, hitls as H, runner as R, tls as T
from checks import c03


class Life(c03.Base):
    """both ends write, read, close; a record may be damaged and the transport may end at any point"""
    name = 'life'
    maxlen = 25

    def consts(self, tier):
        return {'Writers': {'a', 'b'}, 'Readers': {'a', 'b'}, 'Closers': {'a', 'b'}, 'TDirs': {'a'}, 'Sizes': {1}, 'Reads': {1}, 'MaxQ': 1, 'Forges': set(),
                'Tampers': {'body'}, 'Ops': {'write', 'read', 'deliver', 'tamper', 'close', 'eof'}, 'Limits': {16384}, 'Quiet': {True, False}, 'Rooms': {'all', 'none'}}


PARTS = [Life()]


setup = c03.setup


def main():
    return R.run('C02', PARTS, setup=c03.setup)
