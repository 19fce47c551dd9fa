from .stepcommon import check as _c


def check(c):
    _c(c, r'size\..*', implicit=r'size\..*|newton\.(samesize|reduce)')
