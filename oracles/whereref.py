from lib import SKIP
from scheduler.crypto import encrypt as E


def where_cls():
    import dbenv
    dbenv.metadata()
    from scheduler.handers.clause.sql_where import SQLWhere
    return SQLWhere


def like_case(key, p):
    """translation of a LIKE pattern on a fuzzy column"""
    W = where_cls()
    meta = {'t': {'anonymous': 'tt', 'columns': {'c': {'enc-cols': {'symmetric': 's', 'fuzzy': 'f'}, 'plaintext': False, 'type': 'varchar', 'key': key}}}}
    arg = {'literal': p} if isinstance(p, str) else p
    parts = str(p).split('%')
    must = any(x != '' and len(x) < 3 for x in parts)
    try:
        r = W(meta).rewrite({'like': ['c', arg]}, 't')
    except Exception as ex:
        return None if must else 'pattern %r refused: %r' % (p, ex)
    if must:
        return 'pattern %r has a piece shorter than three characters but gave %r' % (p, r)
    want = '%'.join('' if x == '' else E.FuzzyCipher(key).encrypt(x) for x in parts)
    got = r.get('like') if isinstance(r, dict) else None
    if not (isinstance(got, (list, tuple)) and len(got) == 2 and got[0] == 'f' and (got[1] == {'literal': want} or (not isinstance(p, str) and got[1] == want))):
        return 'pattern %r became %r' % (p, r)
    return None
