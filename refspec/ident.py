"""Reference text of a dotted name (C18): the parts, each quoted when it needs quotes."""
from ghost import field_parts, should_quote


def part(x):
    return '`' + x.replace('`', '``') + '`' if should_quote(x) else x


def dotted(name):
    return '.'.join([part(x) for x in field_parts(name)])
