"""Reference meaning of a rewritten single-table condition (C09), written from the property text.

`sub` is the meaning of a smaller condition (structural induction), `mentions` says whether a column name that occurs outside a
literal names an encrypted column."""
from ghost import cipher, encoded, mentions, sub, fuzzy, submentions

ORDER = ['gt', 'lt', 'gte', 'lte']


class Refused(Exception):
    pass


def condition(w, meta):
    if isinstance(w, dict):
        for op, v in w.items():
            if op in ['and', 'or']:
                return {op: [sub(x) for x in v]}
            if (op == 'eq' or op == 'like' or op in ORDER) and isinstance(v[0], str):
                info = meta[v[0]]
                if not info['plaintext']:
                    if op in ORDER and info['type'] != 'int':
                        raise Refused
                    kind = 'symmetric' if op == 'eq' else 'fuzzy' if op == 'like' else 'order-preserving'
                    return {op: [info['enc-cols'][kind], literal(v[1], info, kind)]}
    if mentions(w):
        raise Refused
    return w


def literal(x, info, kind):
    if isinstance(x, str):
        raise Refused
    if isinstance(x, dict):
        if 'literal' not in x:
            raise Refused
        x = x['literal']
    if isinstance(x, list):
        raise Refused
    if kind == 'fuzzy':
        return {'literal': pattern(str(x), info['key'])}
    fraction = info['type'] == 'float' or info['type'] == 'double'
    if isinstance(x, str) and (fraction or kind == 'order-preserving'):
        raise Refused
    if isinstance(x, float) and not fraction:
        raise Refused
    return cipher(kind, info, encoded(x, info['type']))


def pattern(text, key):
    out = []
    for part in text.split('%'):
        out.append(word(part, key))
    return '%'.join(out)


def word(part, key):
    """the fuzzy ciphertext of a text without wildcard; nothing stays nothing"""
    if part == '':
        return ''
    return fuzzy(key, part)


def one_level_mentions(v, meta):
    if isinstance(v, str):
        name = v.split('.')[-1]
        return name in meta and not meta[name]['plaintext']
    if isinstance(v, dict):
        for k in v:
            if k != 'literal' and submentions(v[k]):
                return True
        return False
    if isinstance(v, list):
        for x in v:
            if submentions(x):
                return True
    return False


def mentioned_in_any_table(v, db_meta):
    name = v.split('.')[-1]
    for table in list(db_meta.values()):
        if name in table['columns'] and not table['columns'][name]['plaintext']:
            return True
    return False
