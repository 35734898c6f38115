from refs import r, R
import refs
F='sql_parsing/formatting.py'; D='dots/__init__.py'; SD='dbutils/steady_db.py'
N0=len(R)
r('fmt-in-share','C17 C18',(F,"""        sql = (
            self.dispatch(member, precedence["binary_or"])
            + " IN "
            + self.dispatch(set, precedence["in"])
        )
        if prec < precedence["in"]:
            sql = f"({sql})"
        return sql

    def _nin(self, json, prec):
        member, set = json
        if "literal" in set:
            set = {"literal": listwrap(set["literal"])}
        sql = (
            self.dispatch(member, precedence["binary_or"])
            + " NOT IN "
            + self.dispatch(set, precedence["in"])
        )
        if prec < precedence["in"]:
            sql = f"({sql})"
        return sql
""","""        return self._membership(member, "IN", set, prec)

    def _nin(self, json, prec):
        member, set = json
        if "literal" in set:
            set = {"literal": listwrap(set["literal"])}
        return self._membership(member, "NOT IN", set, prec)

    def _membership(self, member, word, values, prec):
        left = self.dispatch(member, precedence["binary_or"])
        right = self.dispatch(values, precedence["in"])
        text_ = "%s %s %s" % (left, word, right)
        return text_ if prec >= precedence["in"] else "(" + text_ + ")"
"""))
r('fmt-operator','C17',(F,"""        for i, v in enumerate(listwrap(json)):
            if i == 0 and op_prec != precedence["eq"]:
                acc.append(self.dispatch(v, op_prec))
            elif i == 0:
                acc.append(self.dispatch(v, op_prec - 0.25))
            else:
                acc.append(self.dispatch(v, last_prec))
        if prec >= op_prec:
            return op.join(acc)
        else:
            return f"({op.join(acc)})"
""","""        first_prec = op_prec - 0.25 if op_prec == precedence["eq"] else op_prec
        for i, v in enumerate(listwrap(json)):
            acc.append(self.dispatch(v, last_prec if i else first_prec))
        sql = op.join(acc)
        if prec < op_prec:
            sql = "({0})".format(sql)
        return sql
"""))
r('fmt-operator-split','C17',(F,"""        for i, v in enumerate(listwrap(json)):
            if i == 0 and op_prec != precedence["eq"]:
                acc.append(self.dispatch(v, op_prec))
            elif i == 0:
                acc.append(self.dispatch(v, op_prec - 0.25))
            else:
                acc.append(self.dispatch(v, last_prec))
""","""        operands = listwrap(json)
        if len(operands) > 0:
            first_prec = op_prec if op_prec != precedence["eq"] else op_prec - 0.25
            acc.append(self.dispatch(operands[0], first_prec))
            acc.extend([self.dispatch(v, last_prec) for v in operands[1:]])
"""))
r('fmt-op-helper','C17',(F,"""            if prec >= op_prec:
                return method(value, op_prec)
            else:
                return f"({method(value, op_prec)})"
""","""            sql = method(value, op_prec)
            if op_prec > prec:
                return "(" + sql + ")"
            return sql
"""))
r('fmt-literal','C17 C18',(F,"""            for char, escaped in (("\\\\", "\\\\\\\\"), ("'", "''"), ("\\n", "\\\\n"), ("\\r", "\\\\r")):
                json = json.replace(char, escaped)
            return f"'{json}'\"""","""            json = json.replace("\\\\", "\\\\\\\\").replace("'", "''")
            return "'" + json.replace("\\n", "\\\\n").replace("\\r", "\\\\r") + "'\""""))
r('fmt-literal-2','C17 C18',(F,"""        if isinstance(json, list):
            return "({0})".format(", ".join(
                self._literal(v, precedence["literal"]) for v in json
            ))
        elif isinstance(json, string_types):
""","""        if isinstance(json, list):
            parts = []
            for v in json:
                parts.append(self._literal(v, precedence["literal"]))
            return "(" + ", ".join(parts) + ")"
        elif isinstance(json, string_types):
"""))
r('fmt-escape','C18',(F,"""    def esc(identifier):
        if not should_quote(identifier):
            return identifier

        quote = '"' if ansi_quotes else "`"
        identifier = identifier.replace(quote, 2 * quote)
        return "{0}{1}{2}".format(quote, identifier, quote)

    return ".".join(esc(f) for f in split_field(ident))
""","""    quote = '"' if ansi_quotes else "`"
    names = []
    for name in split_field(ident):
        if should_quote(name):
            name = quote + name.replace(quote, quote + quote) + quote
        names.append(name)
    return ".".join(names)
"""))
r('fmt-shouldquote','C18',(F,"""    return identifier != "*" and (not VALID.match(identifier) or is_keyword(identifier))""","""    if identifier == "*":
        return False
    if VALID.match(identifier) is None:
        return True
    return is_keyword(identifier)"""))
r('fmt-orderby','C17 C21',(F,"""        param = ", ".join(
            (
                self.dispatch(s["value"], precedence["order"])
                + " "
                + s.get("sort", "").upper()
            ).strip()
            for s in listwrap(json["orderby"])
        )
        return f"ORDER BY {param}"
""","""        keys = []
        for s in listwrap(json["orderby"]):
            sort = s.get("sort", "").upper()
            keys.append((self.dispatch(s["value"], precedence["order"]) + " " + sort).strip())
        return "ORDER BY " + ", ".join(keys)
"""))
r('fmt-set','C17 C18',(F,"""        param = ", ".join([" = ".join([self.dispatch(k), self.dispatch(v)]) for k, v in json["set"].items()])
        return f"SET {param}"
""","""        assignments = []
        for column, value in json["set"].items():
            assignments.append("{0} = {1}".format(self.dispatch(column), self.dispatch(value)))
        return "SET " + ", ".join(assignments)
"""))
r('fmt-unordered','C17',(F,"""        sql = " ".join(
            part
            for clause in unordered_clauses
            if clause in json
            for part in [getattr(self, clause)(json, precedence["from"])]
            if part
        )
        if prec >= precedence["from"]:
            return sql
        else:
            return f"({sql})"
""","""        parts = []
        for clause in unordered_clauses:
            if clause not in json:
                continue
            part = getattr(self, clause)(json, precedence["from"])
            if part:
                parts.append(part)
        sql = " ".join(parts)
        return sql if prec >= precedence["from"] else "(" + sql + ")"
"""))
r('fmt-ordered','C17',(F,"""        acc.extend(
            part
            for clause in ordered_clauses
            if clause in json
            for part in [getattr(self, clause)(json, precedence["order"])]
            if part
        )
        sql = " ".join(acc)
""","""        for clause in ordered_clauses:
            if clause in json:
                part = getattr(self, clause)(json, precedence["order"])
                if part:
                    acc.append(part)
        sql = " ".join(acc)
"""))
r('fmt-insert','C17 C18',(F,"""        acc = ["INSERT"]
        if "overwrite" in json:
            acc.append("OVERWRITE")
        else:
            acc.append("INTO")
        acc.append(json["insert"])
""","""        acc = ["INSERT", "OVERWRITE" if "overwrite" in json else "INTO", json["insert"]]
"""),(F,"""                columns = list(sorted(set(k for row in values for k in row.keys())))
                acc.append(self.sql_list(columns))
                if "if exists" in json:
                    acc.append("IF EXISTS")
                acc.append("VALUES")
                acc.append(",\\n".join(
                    "(" + ", ".join(self._literal(row[c]) for c in columns) + ")"
                    for row in values
                ))
""","""                columns = sorted(set(k for row in values for k in row.keys()))
                acc.append(self.sql_list(columns))
                if "if exists" in json:
                    acc.append("IF EXISTS")
                acc.append("VALUES")
                lines = []
                for row in values:
                    lines.append("(" + ", ".join(self._literal(row[c]) for c in columns) + ")")
                acc.append(",\\n".join(lines))
"""))
r('fmt-between','C17',(F,"""        return "{0} BETWEEN {1} AND {2}".format(
            self.dispatch(json[0], precedence["binary_or"]),
            self.dispatch(json[1], precedence["binary_or"]),
            self.dispatch(json[2], precedence["binary_or"]),
        )
""","""        value, low, high = [self.dispatch(j, precedence["binary_or"]) for j in json]
        return value + " BETWEEN " + low + " AND " + high
"""))
r('fmt-between-idx','C17',(F,"""        return "{0} BETWEEN {1} AND {2}".format(
            self.dispatch(json[0], precedence["binary_or"]),
            self.dispatch(json[1], precedence["binary_or"]),
            self.dispatch(json[2], precedence["binary_or"]),
        )
""","""        inner = precedence["binary_or"]
        value = self.dispatch(json[0], inner)
        low = self.dispatch(json[1], inner)
        return f"{value} BETWEEN {low} AND {self.dispatch(json[2], inner)}"
"""))
r('fmt-neg','C17',(F,"""        sql = self.dispatch(value, precedence["interval"])
        if sql.startswith("-"):
            sql = f"({sql})"
        return f"-{sql}"
""","""        sql = self.dispatch(value, precedence["interval"])
        return "-(" + sql + ")" if sql[:1] == "-" else "-" + sql
"""))
r('fmt-dispatch','C17 C18',(F,"""        if isinstance(json, string_types):
            return escape(json, self.ansi_quotes, self.should_quote)
        if json == None:
            return "NULL"

        return text(json)
""","""        if json is None:
            return "NULL"
        if isinstance(json, string_types):
            return escape(json, self.ansi_quotes, self.should_quote)
        return text(json)
"""))
r('fmt-case','C17',(F,"""        for check in checks if isinstance(checks, list) else [checks]:
            if isinstance(check, dict):
                if "when" in check and "then" in check:
                    parts.extend(["WHEN", self.dispatch(check["when"])])
                    parts.extend(["THEN", self.dispatch(check["then"])])
                else:
                    parts.extend(["ELSE", self.dispatch(check)])
            else:
                parts.extend(["ELSE", self.dispatch(check)])
        parts.append("END")
        return " ".join(parts)
""","""        for check in listwrap(checks):
            if isinstance(check, dict) and "when" in check and "then" in check:
                when, then = self.dispatch(check["when"]), self.dispatch(check["then"])
                parts.append(f"WHEN {when} THEN {then}")
            else:
                parts.append("ELSE " + self.dispatch(check))
        return " ".join(parts + ["END"])
"""))
r('dots-split','C20',(D,"""        if field.startswith(".."):
            remainder = field.lstrip(".")
            back = len(field) - len(remainder) - 1
            if not remainder:
                return [-1] * back
            return [-1] * back + [
                k.replace("\\a", ".") for k in remainder.replace("\\\\.", "\\a").replace("\\b", "\\\\.").split(".")
            ]
        else:
            return [k.replace("\\a", ".") for k in field.replace("\\\\.", "\\a").replace("\\b", "\\\\.").split(".")]
    else:
        return [field]
""","""        parents = []
        if field.startswith(".."):
            remainder = field.lstrip(".")
            parents = [-1] * (len(field) - len(remainder) - 1)
            if not remainder:
                return parents
            field = remainder
        return parents + _steps(field)
    return [field]


def _steps(path):
    steps = path.replace("\\\\.", "\\a").replace("\\b", "\\\\.").split(".")
    return [s.replace("\\a", ".") for s in steps]
"""))
r('dots-join','C20',(D,"""    if path[0] == -1:
        for i, step in enumerate(path):
            if step != -1:
                parents = "." + ("." * i)
                return parents + ".".join([
                    f.replace(".", "\\a") for f in path[i:] if f != None
                ]).replace("\\\\.", "\\b").replace("\\a", "\\\\.")
        return "." + ("." * len(path))
    output = ".".join(f.replace(".", "\\a") for f in path if f != None).replace("\\\\.", "\\b").replace("\\a", "\\\\.")
    return output if output else "."
""","""    if path[0] == -1:
        for i, step in enumerate(path):
            if step != -1:
                return "." * (i + 1) + _joined(path[i:])
        return "." * (len(path) + 1)
    return _joined(path) or "."


def _joined(steps):
    names = [f.replace(".", "\\a") for f in steps if f is not None]
    return ".".join(names).replace("\\\\.", "\\b").replace("\\a", "\\\\.")
"""))
r('dots-join-count','C20',(D,"""        for i, step in enumerate(path):
            if step != -1:
                parents = "." + ("." * i)
                return parents + ".".join([
                    f.replace(".", "\\a") for f in path[i:] if f != None
                ]).replace("\\\\.", "\\b").replace("\\a", "\\\\.")
        return "." + ("." * len(path))
""","""        up = 0
        while up < len(path) and path[up] == -1:
            up += 1
        if up == len(path):
            return "." + ("." * len(path))
        names = [f.replace(".", "\\a") for f in path[up:] if f != None]
        return "." + "." * up + ".".join(names).replace("\\\\.", "\\b").replace("\\a", "\\\\.")
"""))
r('dots-concat','C20',(D,"""        prefix_path = split_field(prefix)
        if len(prefix_path) >= back:
            return join_field(split_field(prefix)[:-back] + (split_field(remainder) if remainder else []))
        else:
            return "." * (back - len(prefix_path)) + "." + remainder
    else:
        return join_field(split_field(prefix) + split_field(suffix))
""","""        prefix_path = split_field(prefix)
        if back > len(prefix_path):
            return "." * (back - len(prefix_path) + 1) + remainder
        path = prefix_path[:len(prefix_path) - back]
        if remainder:
            path = path + split_field(remainder)
        return join_field(path)
    return join_field(split_field(prefix) + split_field(suffix))
"""))
r('dots-tail','C20',(D,"""    path = split_field(field)
    if not path:
        return ".", "."
    return path[0], join_field(path[1:])
""","""    path = split_field(field)
    if path:
        head, rest = path[0], path[1:]
        return head, join_field(rest)
    return ".", "."
"""))
r('steady-reopen','C16 C15',(SD,"""        except self._failures as error:  # cannot commit
            try:  # try to reopen the connection
                con = self._create()
            except Exception:
                pass
            else:
                self._close()
                self._store(con)
            raise error  # re-raise the original error
""","""        except self._failures as error:  # cannot commit
            self._reopen()
            raise error  # re-raise the original error

    def _reopen(self):
        \"\"\"Try to replace the connection by a new one.\"\"\"
        try:
            con = self._create()
        except Exception:
            return
        self._close()
        self._store(con)
"""),(SD,"""        except self._failures as error:  # cannot rollback
            try:  # try to reopen the connection
                con = self._create()
            except Exception:
                pass
            else:
                self._close()
                self._store(con)
            raise error  # re-raise the original error
""","""        except self._failures as error:  # cannot rollback
            self._reopen()
            raise error  # re-raise the original error
"""))
r('steady-usage','C16',(SD,"""            if (self._maxusage and self._usage >= self._maxusage
                    and not transaction):
                raise self._failure
            cursor = self._con.cursor(*args, **kwargs)  # try to get a cursor
""","""            if not transaction and self._worn_out():
                raise self._failure
            cursor = self._con.cursor(*args, **kwargs)  # try to get a cursor
"""),(SD,"""    def cursor(self, *args, **kwargs):
        \"\"\"Return a new Cursor""","""    def _worn_out(self):
        return bool(self._maxusage) and self._usage >= self._maxusage

    def cursor(self, *args, **kwargs):
        \"\"\"Return a new Cursor"""),(SD,"""                if (con._maxusage and con._usage >= con._maxusage
                        and not transaction):
                    raise con._failure
""","""                if not transaction and con._worn_out():
                    raise con._failure
"""))
r('steady-close','C16 C15',(SD,"""        if not self._closed:
            try:
                self._con.close()
            except Exception:
                pass
            self._transaction = False
            self._closed = True
""","""        if self._closed:
            return
        try:
            self._con.close()
        except Exception:
            pass
        self._closed = True
        self._transaction = False
"""))
r('steady-cursor-flat','C16',(SD,"""            try:  # try to reopen the connection
                con = self._create()
            except Exception:
                pass
            else:
                try:  # and try one more time to get a cursor
                    cursor = con.cursor(*args, **kwargs)
                except Exception:
                    pass
                else:
                    self._close()
                    self._store(con)
                    if transaction:
                        raise error  # re-raise the original error again
                    return cursor
                try:
                    con.close()
                except Exception:
                    pass
            if transaction:
                self._transaction = False
            raise error  # re-raise the original error again
        return cursor
""","""            con = cursor = None
            try:  # try to reopen the connection
                con = self._create()
                cursor = con.cursor(*args, **kwargs)
            except Exception:
                cursor = None
            if cursor is not None:
                self._close()
                self._store(con)
                if not transaction:
                    return cursor
                raise error
            if con is not None:
                try:
                    con.close()
                except Exception:
                    pass
            if transaction:
                self._transaction = False
            raise error  # re-raise the original error again
        return cursor
"""))
r('steady-ping','C16',(SD,"""        if ping & self._ping:
            try:  # if possible, ping the connection
                try:  # pass a reconnect=False flag if this is supported
                    alive = self._con.ping(False)
                except TypeError:  # the reconnect flag is not supported
                    alive = self._con.ping()
            except""","""        if ping & self._ping:
            try:  # if possible, ping the connection
                alive = self._driver_ping()
            except"""),(SD,"""    def dbapi(self):
        \"\"\"Return the underlying""","""    def _driver_ping(self):
        try:  # pass a reconnect=False flag if this is supported
            return self._con.ping(False)
        except TypeError:  # the reconnect flag is not supported
            return self._con.ping()

    def dbapi(self):
        \"\"\"Return the underlying"""))
r('steady-tough-helper','C16',(SD,"""                if execute:
                    self._setsizes()
                method = getattr(self._cursor, name)
                result = method(*args, **kwargs)  # try to execute
                if execute:
                    self._clearsizes()
            except con._failures""","""                result = self._run(self._cursor, name, execute, args, kwargs)
            except con._failures"""),(SD,"""                        try:  # and try one more time to execute
                            if execute:
                                self._setsizes(cursor2)
                            method = getattr(cursor2, name)
                            result = method(*args, **kwargs)
                            if execute:
                                self._clearsizes()
                        except""","""                        try:  # and try one more time to execute
                            result = self._run(cursor2, name, execute, args, kwargs)
                        except"""),(SD,"""    def _get_tough_method(self, name):""","""    def _run(self, cursor, name, execute, args, kwargs):
        if execute:
            self._setsizes(cursor)
        result = getattr(cursor, name)(*args, **kwargs)
        if execute:
            self._clearsizes()
        return result

    def _get_tough_method(self, name):"""))
O='scheduler/crypto/ope/ope.py'
r('tape-yieldfrom','C01 C02',(O,"""        while True:
            encrypted_bytes = encryptor.update(b'\\x00' * 16)
            # Convert the data to a list of bits
            bits = util.str_to_bitstring(encrypted_bytes)
            for bit in bits:
                yield bit
""","""        zeros = bytes(16)
        while 1:
            yield from util.str_to_bitstring(encryptor.update(zeros))
"""))
r('tape-helper','C01 C02',(O,"""        # Derive a key from data
        hmac_obj = hmac.HMAC(self.key, digestmod=hashlib.sha256)
        hmac_obj.update(data)
        assert hmac_obj.digest_size == 32
        digest = hmac_obj.digest()
""","""        digest = self._derive(data)
"""),(O,"""    def tape_gen(self, data):""","""    def _derive(self, data):
        hmac_obj = hmac.HMAC(self.key, msg=data, digestmod=hashlib.sha256)
        return hmac_obj.digest()

    def tape_gen(self, data):"""))
r('tape-blocks','C01 C02',(O,"""        while True:
            encrypted_bytes = encryptor.update(b'\\x00' * 16)
            # Convert the data to a list of bits
            bits = util.str_to_bitstring(encrypted_bytes)
            for bit in bits:
                yield bit
""","""        bits = []
        while True:
            if not bits:
                bits = list(util.str_to_bitstring(encryptor.update(b'\\x00' * 16)))
            yield bits.pop(0)
"""))
