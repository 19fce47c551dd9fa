from .stepcommon import check as _c


def check(c):
    _c(c, r'stage|stage\.retry|solution|derivative|schedule')
