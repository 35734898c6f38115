"""Reference texts of expressions (C17)."""
from ghost import operand_text


def joined(xs, sign):
    return (' ' + sign + ' ').join([operand_text(x) for x in xs])
