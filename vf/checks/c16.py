from .esdcommon import check as _c


def check(c):
    _c(c, r'jac\..*|lu\..*|pre\..*|newton\.(samesize|reduce)|linear\.iterations|count\.nlu',
       need=('jac.start', 'jac.retry', 'jac.differences', 'lu.kept', 'lu.new', 'linear', 'each', 'newton.current', 'newton.old',
             'rej.again', 'newton.afterrej', 'nonfinite', 'rule.jac', 'rule.lu', 'rule.keep'))
