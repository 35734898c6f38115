"""Reference text of a group (C19)."""


def spelled(tokens):
    return ''.join([t.value for t in tokens])


def pieces(statements):
    return [str(s).strip() for s in statements]
