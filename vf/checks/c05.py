from .stepcommon import check as _c


def check(c):
    _c(c, r'accept(\.pre)?|reject(\.pre)?|stage\.retry|fail\.(over|nan|other|small)|retry\..*',
       implicit=r'accept|reject|fail\..*')
