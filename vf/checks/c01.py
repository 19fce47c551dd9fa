from .lifecommon import check as _c


def check(c):
    _c(c, r'life\..*|ends\.hang')
