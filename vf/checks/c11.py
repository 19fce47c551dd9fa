from .isocommon import check as _c


def check(c):
    _c(c, r"alone\..*|user\..*")
