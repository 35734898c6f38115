W=[]
def r(id, props, *edits): W.append((id, props.split(), edits))
F='sql_parsing/formatting.py'; D='dots/__init__.py'; SD='dbutils/steady_db.py'; P='dbutils/pooled_db.py'; U='sql_parsing/utils.py'
# C15
r('d15-waitshare','C15',(P,"""                while (not self._shared_cache and self._maxconnections
                        and self._connections >= self._maxconnections):
                    self._wait_lock()
""","""                if (not self._shared_cache and self._maxconnections
                        and self._connections >= self._maxconnections):
                    self._wait_lock()
"""))
r('d15-idle-peek','C15',(P,"""                # connection limit not reached, get a dedicated connection
                try:  # first try to get it from the idle cache
                    con = self._idle_cache.pop(0)
                except IndexError:  # else get a fresh connection
                    con = self.steady_connection()
                else:
                    con._ping_check()  # check connection
""","""                # connection limit not reached, get a dedicated connection
                try:  # first try to get it from the idle cache
                    con = self._idle_cache[0]
                except IndexError:  # else get a fresh connection
                    con = self.steady_connection()
                else:
                    if con._ping_check() is not False or not self._ping:  # check connection
                        self._idle_cache.pop(0)
"""))
r('d15-reset-after','C15',(P,"""                con._reset(force=self._reset)  # rollback possible transaction
                # the idle cache is not full, so put it there
                self._idle_cache.append(con)""","""                # the idle cache is not full, so put it there
                if con._usage:
                    con._reset(force=self._reset)  # rollback possible transaction
                self._idle_cache.append(con)"""))
r('d15-maxcached','C15',(P,"""            if not self._maxcached or len(self._idle_cache) < self._maxcached:
                con._reset""","""            if not self._maxcached or len(self._idle_cache) <= self._maxcached - (con._usage > 0):
                con._reset"""))
r('d15-close-count','C15',(P,"""                    con = self._shared_cache.pop(0).con
                    try:
                        con.close()
                    except Exception:
                        pass
                    self._connections -= 1""","""                    con = self._shared_cache.pop(0)
                    try:
                        con.con.close()
                    except Exception:
                        pass
                    self._connections -= con.shared"""))
r('d15-unshare-eq','C15',(P,"""            shared = con.shared
            if not shared:  # connection is idle,
                try:""","""            shared = con.shared
            if shared <= 0 or con.con._closed:  # connection is idle,
                try:"""))
r('d15-ctor','C15',(P,"""            if maxconnections < maxshared:
                maxconnections = maxshared
            self._maxconnections = maxconnections""","""            if maxconnections < maxshared + mincached:
                maxconnections = maxshared + mincached
            self._maxconnections = maxconnections"""))
# C16
r('d16-usage-tx','C16',(SD,"""                if (con._maxusage and con._usage >= con._maxusage
                        and not transaction):
                    raise con._failure
                if execute:""","""                if (con._maxusage and con._usage >= con._maxusage
                        and not (transaction and execute)):
                    raise con._failure
                if execute:"""))
r('d16-ping-tx','C16',(SD,"""        transaction = self._transaction
        if not transaction:
            self._ping_check(2)
""","""        transaction = self._transaction
        if not (transaction and self._usage):
            if not self._ping_check(2, reconnect=not transaction) and self._ping == 2 and transaction:
                self._store(self._create())
"""))
r('d16-commit-end','C16',(SD,"""    def commit(self):
        \"\"\"Commit any pending transaction.\"\"\"
        self._transaction = False
        try:
            self._con.commit()
""","""    def commit(self):
        \"\"\"Commit any pending transaction.\"\"\"
        try:
            self._con.commit()
            self._transaction = False
"""))
r('d16-rollback-leak','C16',(SD,"""    def rollback(self):
        \"\"\"Rollback pending transaction.\"\"\"
        self._transaction = False
        try:
            self._con.rollback()
        except self._failures as error:  # cannot rollback
            try:  # try to reopen the connection
                con = self._create()
            except Exception:
                pass
            else:
                self._close()
                self._store(con)""","""    def rollback(self):
        \"\"\"Rollback pending transaction.\"\"\"
        self._transaction = False
        try:
            self._con.rollback()
        except self._failures as error:  # cannot rollback
            try:  # try to reopen the connection
                con = self._create()
            except Exception:
                pass
            else:
                if not self._closed:
                    self._closed = bool(self._usage)
                self._close()
                self._store(con)"""))
r('d16-use2-close','C16',(SD,"""                        if use2:
                            self.close()
                            con._close()
                            con._store(con2)""","""                        if use2:
                            self.close()
                            if not error2:
                                con._close()
                            con._store(con2)"""))
r('d16-tx-late','C16',(SD,"""        self._transaction = True
        try:
            begin = self._con.begin
        except AttributeError:
            pass
        else:
            begin(*args, **kwargs)""","""        try:
            begin = self._con.begin
        except AttributeError:
            pass
        else:
            begin(*args, **kwargs)
            self._transaction = True"""))
r('d16-cursor-second','C16',(SD,"""                if not transaction:
                    try:
                        cursor2 = con._cursor(""","""                if not transaction or not execute:
                    try:
                        cursor2 = con._cursor("""))
r('d16-reset-quiet','C16',(SD,"""        if self._closeable:
            self._close()
        elif self._transaction:
            self._reset()""","""        if self._closeable and not self._transaction:
            self._close()
        elif self._transaction:
            self._reset()"""))
r('d16-ping-replace','C16',(SD,"""                else:
                    self._close()
                    self._store(con)
                    alive = True
            return alive""","""                else:
                    if alive is not False:
                        self._close()
                    self._store(con)
                    alive = True
            return alive"""))
# C17
r('d17-where-true','C17',(F,"""    def where(self, json, prec):
        expr = self.dispatch(json["where"])
        return f"WHERE {expr}\"""","""    def where(self, json, prec):
        expr = self.dispatch(json["where"])
        if expr == "True":
            return ""
        return f"WHERE {expr}\""""))
