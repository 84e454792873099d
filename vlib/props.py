"""The checks: property -> (function, level)."""
from . import collprops as K
from . import distprops as D
from . import fmtprops as F
from . import ioprops as I
from . import parprops as P
from . import parseprops as X
from . import rwprops as R
from . import seqprops as S

CHECKS = {
    "C01": (S.c01, "model_checking"),
    "C02": (K.c02, "model_checking"),
    "C03": (S.c03, "model_checking"),
    "C04": (S.c04, "model_checking"),
    "C05": (S.c05, "model_checking"),
    "C06": (S.c06, "model_checking"),
    "C07": (S.c07, "model_checking"),
    "C08": (P.c08, "model_checking"),
    "C09": (R.c09, "model_checking"),
    "C10": (R.c10, "model_checking"),
    "C11": (R.c11, "model_checking"),
    "C12": (R.c12, "model_checking"),
    "C13": (I.c13, "model_checking"),
    "C14": (I.c14, "model_checking"),
    "C15": (K.c15, "model_checking"),
    "C16": (D.c16, "model_checking"),
    "C17": (X.c17, "model_checking"),
    "C18": (S.c18, "model_checking"),
    "C19": (S.c19, "model_checking"),
    "C20": (F.c20, "model_checking"),
}
