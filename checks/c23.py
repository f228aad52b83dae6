"""C23: revocation by complete certificate revocation lists (scope, reasons, delta lists)."""
from checks import c10
from lib import build as B, hitls as H, runner as R

PARTS = [c10.Part('crl', lite=False), c10.Part('delta', lite=False), c10.Mix(lite=False)]


def setup():
    c10.setup(B.build('crl', opts=[o.replace('CRL_LITE=ON', 'CRL_LITE=OFF') for o in B.OPTS]))


def main():
    return R.run('C23', PARTS, setup=setup)
