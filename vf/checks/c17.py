from .esdcommon import check as _c


def check(c):
    _c(c, r'stage|solution|accept|reject|residual|newton\.(unconverged|given\.up)|schedule|fail\..*|count\.(nfi|nfs|nls)',
       need=('acc', 'rej', 'newton', 'slow', 'linear', 'nonfinite', 'newton.current', 'newton.old'))
