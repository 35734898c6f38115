STMTS = [
    'SELECT a FROM t LIMIT 0', 'SELECT a FROM t LIMIT 5 OFFSET 0', 'SELECT a FROM t LIMIT 0, 5', 'SELECT a FROM t ORDER BY a LIMIT 3', 'SELECT 0 FROM t',
    "SELECT '' FROM t", "SELECT a FROM t WHERE a = ''", 'SELECT a FROM t WHERE a = 0', 'SELECT a FROM t WHERE NOT a', 'SELECT a, a FROM t', 'SELECT NULL FROM t',
    'SELECT a x, b y FROM t', 'SELECT a x FROM t', 'SELECT DISTINCT a FROM t', 'SELECT DISTINCT a, b FROM t', 'SELECT COUNT(*) FROM t', 'SELECT COUNT(*) n FROM t',
    'SELECT COUNT(DISTINCT a) FROM t', 'SELECT COUNT(DISTINCT a) n FROM t', 'SELECT SUM(a + b) s, MAX(c) FROM t', "SELECT IFNULL(a, 'x') FROM t", 'SELECT NOW() FROM t',
    'SELECT * FROM t', 'SELECT t.* FROM t', 'SELECT t.a, u.b FROM t, u', 'SELECT x.a FROM t x', 'SELECT x.a FROM t x, u y WHERE x.a = y.a',
    'SELECT a FROM t JOIN u ON t.a = u.b', 'SELECT a FROM t LEFT JOIN u ON t.a = u.b', 'SELECT a FROM t INNER JOIN u ON t.a = u.b AND t.c > 1',
    'SELECT a FROM t RIGHT JOIN u x ON t.a = x.b', 'SELECT a FROM t CROSS JOIN u', 'SELECT a FROM t JOIN u USING (c)', 'SELECT a FROM t JOIN u USING (c, d)',
    'SELECT a FROM t JOIN u ON t.a = u.a LEFT JOIN v ON v.b = u.b WHERE v.c IS NULL', 'SELECT a FROM t LEFT OUTER JOIN u ON t.a = u.b', 'SELECT a FROM t FULL JOIN u ON t.a = u.b',
    'SELECT a FROM t GROUP BY a', 'SELECT a FROM t GROUP BY a, b', 'SELECT a FROM t GROUP BY a HAVING COUNT(*) > 1', 'SELECT a FROM t GROUP BY a + b HAVING a > 0 ORDER BY b',
    'SELECT a FROM t ORDER BY a', 'SELECT a FROM t ORDER BY a ASC', 'SELECT a FROM t ORDER BY a DESC', 'SELECT a FROM t ORDER BY a DESC, b, c ASC', 'SELECT a FROM t ORDER BY a + b DESC',
    'SELECT a FROM t WHERE a = 1 GROUP BY b HAVING c = 2 ORDER BY d DESC LIMIT 4 OFFSET 5',
    'SELECT a FROM (SELECT b FROM u) x', 'SELECT a FROM (SELECT b FROM u WHERE c = 1 ORDER BY d LIMIT 2) x WHERE a = 1', 'SELECT a FROM t WHERE a IN (SELECT b FROM u)',
    'SELECT a FROM t WHERE a NOT IN (SELECT b FROM u WHERE c = 1)', 'SELECT a FROM t WHERE a = (SELECT MAX(b) FROM u)', 'SELECT (SELECT MAX(b) FROM u) FROM t', 'SELECT (SELECT MAX(b) FROM u) x, c FROM t',
    'SELECT a FROM t WHERE a > (SELECT b FROM u LIMIT 1) AND c = 1', 'SELECT a FROM t JOIN (SELECT b FROM u) x ON t.a = x.b', 'SELECT a FROM t WHERE a BETWEEN (SELECT 1) AND (SELECT 2)',
    'SELECT (SELECT 1) + (SELECT 2) FROM t', 'SELECT IFNULL(a, (SELECT 3)) FROM t', 'SELECT a FROM t GROUP BY (SELECT 1)', 'SELECT a FROM t ORDER BY (SELECT 1)',
    'SELECT a FROM t UNION SELECT b FROM u', 'SELECT a FROM t UNION ALL SELECT b FROM u', 'SELECT a FROM t UNION DISTINCT SELECT b FROM u', 'SELECT a FROM t UNION SELECT b FROM u UNION SELECT c FROM v',
    'SELECT a FROM t UNION ALL SELECT b FROM u ORDER BY a LIMIT 3', 'SELECT a FROM t INTERSECT SELECT b FROM u', 'SELECT a FROM t INTERSECT ALL SELECT b FROM u',
    'SELECT a FROM t EXCEPT SELECT b FROM u', 'SELECT a FROM t EXCEPT ALL SELECT b FROM u', 'SELECT a FROM t EXCEPT DISTINCT SELECT b FROM u', 'SELECT a FROM t WHERE a IN (SELECT b FROM u UNION SELECT c FROM v)',
    'SELECT a FROM (SELECT b FROM u UNION ALL SELECT c FROM v) x',
    'SELECT CASE WHEN a = 1 THEN b END FROM t', 'SELECT CASE WHEN a = 1 THEN b ELSE c END FROM t', 'SELECT CASE WHEN a = 1 THEN b WHEN a = 2 THEN d ELSE 0 END x FROM t',
    'SELECT CAST(a AS DECIMAL(10, 2)) FROM t', 'SELECT CAST(a AS CHAR(3)) FROM t', 'SELECT CAST(a AS DATE) FROM t', 'SELECT CAST(a + b AS DATE) FROM t', 'SELECT TRIM(a) FROM t', 'SELECT TRIM(BOTH b FROM a) FROM t', 'SELECT TRIM(LEADING b FROM a) FROM t',
    'SELECT TRIM(b FROM a) FROM t', 'SELECT SUBSTRING(a, 1, 2) FROM t', 'SELECT a COLLATE utf8 FROM t', "SELECT a FROM t WHERE a LIKE 'x%'", "SELECT a FROM t WHERE a NOT LIKE 'x%'", "SELECT a FROM t WHERE a RLIKE 'x'",
    "SELECT a FROM t WHERE a NOT RLIKE 'x'", 'SELECT a FROM t WHERE a <=> b', 'SELECT a FROM t WHERE a IS NULL', 'SELECT a FROM t WHERE a IS NOT NULL', 'SELECT a FROM t WHERE a BETWEEN 0 AND 5', 'SELECT a FROM t WHERE a NOT BETWEEN 0 AND 5',
    'SELECT a FROM t WHERE a IN (0, 1)', "SELECT a FROM t WHERE a IN ('x', 'y')", "SELECT a FROM t WHERE a NOT IN ('x', 'y')", 'SELECT a FROM t WHERE a NOT IN (0, 1)', 'SELECT a FROM t WHERE a IN (b, 1)',
    'SELECT SUM(a) OVER (PARTITION BY b) FROM t', 'SELECT SUM(a) OVER (PARTITION BY b, c ORDER BY d DESC) FROM t', 'SELECT SUM(a) OVER (ORDER BY d) s FROM t', 'SELECT SUM(a) OVER () FROM t',
    'SELECT SUM(a) OVER (ORDER BY d ROWS BETWEEN 1 PRECEDING AND 2 FOLLOWING) FROM t', 'SELECT SUM(a) OVER (ORDER BY d ROWS BETWEEN UNBOUNDED PRECEDING AND 2 FOLLOWING) FROM t',
    'SELECT SUM(a) OVER (ORDER BY d ROWS BETWEEN CURRENT ROW AND 2 FOLLOWING) FROM t', 'SELECT SUM(a) OVER (ORDER BY d ROWS BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING) FROM t',
    'SELECT SUM(a) OVER (ORDER BY d ROWS BETWEEN 3 PRECEDING AND 1 PRECEDING) FROM t', 'SELECT SUM(a) OVER (ORDER BY d ROWS BETWEEN 1 FOLLOWING AND 3 FOLLOWING) FROM t',
    'WITH w AS (SELECT a FROM t) SELECT b FROM w', 'WITH w AS (SELECT a FROM t), v AS (SELECT c FROM w) SELECT b FROM v',
    'UPDATE t SET a = 1', 'UPDATE t SET a = 0 WHERE b = 0', "UPDATE t SET a = '', b = NULL WHERE c IS NULL", 'UPDATE t SET a = a + 1, b = b * 2 WHERE c = 1 OR d = 2', 'UPDATE t SET a = (SELECT MAX(b) FROM u)',
    'DELETE FROM t', 'DELETE FROM t WHERE a = 0', 'DELETE FROM t WHERE a = 1 OR b = 2 AND c = 3',
    'INSERT INTO t (a) VALUES (1)', 'INSERT INTO t (a) VALUES (0)', "INSERT INTO t (a, b) VALUES (1, '')", "INSERT INTO t (a, b) VALUES (NULL, 'x')", 'INSERT INTO t VALUES (1, 2)', 'INSERT INTO t VALUES (1)',
    "INSERT INTO t (a, b) VALUES (1, 'x'), (2, 'y'), (3, '')", 'INSERT INTO t (a) VALUES (1), (2)', 'INSERT INTO t SELECT a FROM u', 'INSERT INTO t (a, b) SELECT c, d FROM u WHERE e = 1', 'INSERT INTO t (a) SELECT c FROM u UNION SELECT d FROM v',
    'INSERT INTO t (a, b) VALUES (1 + 2, NOW())', 'INSERT INTO t (a, b) VALUES (-1, 2.5)',
    'DROP TABLE t', 'DROP TABLE IF EXISTS t', 'DROP VIEW v', 'DROP INDEX i',
    'SELECT a - (b - c) FROM t', 'SELECT (a + b) * c FROM t', 'SELECT -a FROM t', 'SELECT a FROM t WHERE NOT (a = 1 OR b = 2)', 'SELECT a FROM t WHERE (a = 1 OR b = 2) AND c = 3', 'SELECT a FROM t WHERE a = 1 AND (b = 2 OR c = 3) AND d = 4',
    'SELECT a FROM t WHERE (a + 1) * 2 > b % 3', 'SELECT a || b FROM t', 'SELECT a & b | c FROM t', 'SELECT ~a FROM t', 'SELECT 1.5, 2, -3 FROM t', "SELECT 'it''s' FROM t", 'SELECT TRUE, FALSE FROM t', 'SELECT a.b FROM a', 'SELECT x.a.b FROM x.a',
]


def rand_stmt(o):
    r = o.rng

    def ch(*xs):
        return r.choice(xs)

    def lit():
        return ch('0', '1', '7', '2.5', "''", "'x'", "'it''s'", 'NULL', '12345678901234')

    def ex(d):
        k = r.randrange(12) if d > 0 else r.randrange(3)
        if k < 2:
            return ch('a', 'b', 'c', 't.a', 'u.b')
        if k == 2:
            return lit()
        if k < 6:
            return '(%s %s %s)' % (ex(d - 1), ch('+', '-', '*', '/', '%', '||'), ex(d - 1))
        if k == 6:
            return 'IFNULL(%s, %s)' % (ex(d - 1), ex(d - 1))
        if k == 7:
            return '%s(%s)' % (ch('SUM', 'MAX', 'MIN', 'AVG', 'COUNT', 'ABS'), ex(d - 1))
        if k == 8:
            return 'CASE WHEN %s THEN %s%s END' % (cond(d - 1), ex(d - 1), ch('', ' ELSE ' + ex(d - 1)))
        if k == 9:
            return 'CAST(%s AS %s)' % (ex(d - 1), ch('DATE', 'CHAR(3)', 'DECIMAL(10, 2)'))
        if k == 10:
            return '(%s)' % query(d - 1, 1)
        return 'SUM(%s) OVER (%s)' % (ex(d - 1), ch('PARTITION BY ' + ex(d - 1), 'PARTITION BY a, b', 'ORDER BY c DESC', 'PARTITION BY a ORDER BY b', 'PARTITION BY a, c ORDER BY b, d DESC'))

    def cond(d):
        k = r.randrange(9) if d > 0 else 0
        if k < 3:
            return '%s %s %s' % (ex(d - 1), ch('=', '<>', '<', '>', '<=', '>=', 'LIKE', 'NOT LIKE', '<=>', 'RLIKE'), ex(d - 1))
        if k == 3:
            return '(%s %s %s)' % (cond(d - 1), ch('AND', 'OR'), cond(d - 1))
        if k == 4:
            return 'NOT (%s)' % cond(d - 1)
        if k == 5:
            return '%s %s' % (ch('a', 'b', 't.a'), ch('IS NULL', 'IS NOT NULL'))
        if k == 6:
            return '%s %sBETWEEN %s AND %s' % (ch('a', 'b'), ch('', 'NOT '), ex(d - 1), ex(d - 1))
        if k == 7:
            return '%s %sIN (%s)' % (ch('a', 'b'), ch('', 'NOT '), ch('1, 2', "'x', 'y'", 'a, 1', '0', query(d - 1, 1)))
        return '%s = (%s)' % (ch('a', 'b'), query(d - 1, 1))

    def table(d):
        if d > 0 and r.random() < .2:
            return '(%s) %s' % (query(d - 1, 2), ch('x', 'y'))
        return ch('t', 'u', 't x', 'u y', 'v')

    def simple(d, n):
        s = 'SELECT ' + ch('', '', '', 'DISTINCT ')
        s += ', '.join(ex(d) + ch('', '', ' n%d' % i) for i in range(n if n == 1 else r.randint(1, 3)))
        s += ' FROM ' + table(d)
        for _ in range(ch(0, 0, 0, 1, 2)):
            k = r.randrange(4)
            s += (' %s %s ON %s' % (ch('JOIN', 'LEFT JOIN', 'RIGHT JOIN', 'INNER JOIN'), table(d), cond(d)) if k < 2 else
                  ' JOIN %s USING (%s)' % (ch('u', 'v'), ch('a', 'a, b')) if k == 2 else ' CROSS JOIN ' + ch('u', 'v'))
        if r.random() < .5:
            s += ' WHERE ' + cond(d)
        if r.random() < .3:
            s += ' GROUP BY ' + ', '.join(ex(min(d, 1)) for _ in range(ch(1, 1, 2)))
            if r.random() < .5:
                s += ' HAVING ' + cond(d)
        return s

    def tail(d):
        s = ''
        if r.random() < .35:
            s += ' ORDER BY ' + ', '.join(ex(min(d, 1)) + ch('', ' ASC', ' DESC') for _ in range(ch(1, 1, 2)))
        if r.random() < .3:
            s += ch(' LIMIT 0', ' LIMIT 3', ' LIMIT 4 OFFSET 0', ' LIMIT 4 OFFSET 9')
        return s

    def query(d, n):
        s = simple(d, n)
        if r.random() < .15:
            op = ch('UNION', 'UNION ALL', 'UNION DISTINCT', 'INTERSECT', 'EXCEPT')
            for _ in range(ch(1, 1, 2)):
                s += ' %s %s' % (op, simple(d, n))
        return s + tail(d)
    k = r.randrange(10)
    if k == 0:
        return 'UPDATE t SET %s%s' % (', '.join('%s = %s' % (c, ex(2)) for c in r.sample(['a', 'b', 'c'], r.randint(1, 3))), ch('', ' WHERE ' + cond(2)))
    if k == 1:
        return 'DELETE FROM t' + ch('', ' WHERE ' + cond(2))
    if k == 2:
        cs = r.sample(['a', 'b', 'c'], r.randint(1, 3))
        q = ch(0, 0, 1)
        if q:
            return 'INSERT INTO t (%s) %s' % (', '.join(cs), query(1, 2))
        n = ch(1, 1, 2, 3)
        return 'INSERT INTO t (%s) VALUES %s' % (', '.join(cs), ', '.join('(%s)' % ', '.join(lit() if n > 1 else ex(1) for _ in cs) for _ in range(n)))
    return query(r.choice([0, 1, 1, 2]), 2)
