"""A recognizer of the Buzz language, written from its grammar: does a text belong to the language?"""

KW = {'var': 'VAR', 'if': 'IF', 'else': 'ELSE', 'function': 'FUN', 'return': 'RET', 'for': 'FOR', 'while': 'WHILE', 'and': 'LOG', 'or': 'LOG', 'not': 'NOT', 'nil': 'NIL'}
ONE = {';': 'END', '{': '{', '}': '}', '(': '(', ')': ')', '[': '[', ']': ']', ',': ',', '.': '.',
       '+': 'ADD', '-': 'ADD', '*': 'MUL', '/': 'MUL', '%': 'MOD', '^': 'POW', '&': 'BAND', '|': 'BAND'}
DIG = set('0123456789')
ALPHA = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
ID = ALPHA | DIG | {'_'}


class Refused(Exception):
    pass


class Unsure(Exception):
    """The text uses something whose acceptance is not specified."""


def tokens(t):
    i, line, out, n = 0, 1, [], len(t)
    while i < n:
        c = t[i]
        if c in ' \t\r':
            i += 1
        elif c == '#':
            while i < n and t[i] != '\n':
                i += 1
            if i < n:
                i += 1
                line += 1
        elif c == '\n':
            i += 1
            line += 1
        elif c == ';':
            i += 1
        elif c in DIG:
            j = i
            while j < n and (t[j] in DIG or t[j] == '.'):
                j += 1
            if t[i:j].count('.') > 1:
                raise Unsure()
            out.append(('CONST', t[i:j], line))
            i = j
        elif c in ALPHA:
            j = i
            while j < n and t[j] in ID:
                j += 1
            w = t[i:j]
            if w == 'include':
                raise Unsure()
            out.append((KW.get(w, 'ID'), w, line))
            i = j
        elif c in '"\'':
            l0, j = line, i + 1
            while j < n and t[j] != c:
                if t[j] == '\\' and j + 1 < n:
                    j += 1
                line += t[j] == '\n'
                j += 1
            if j >= n:
                out.append(('BAD', None, l0))
                return out
            out.append(('STR', t[i + 1:j], l0))
            i = j + 1
        elif c in '=!<>':
            d = t[i:i + 2]
            if d in ('<<', '>>'):
                out.append(('SHIFT', d, line))
                i += 2
            elif len(d) == 2 and d[1] == '=':
                out.append(('CMP', d, line))
                i += 2
            else:
                out.append(({'=': '=', '!': 'BNOT'}.get(c, 'CMP'), c, line))
                i += 1
        elif c in ONE:
            out.append((ONE[c], c, line))
            i += 1
        else:
            out.append(('BAD', c, line))
            return out
    out.append(('EOF', None, line))
    return out


class Rec:
    def __init__(self, text):
        self.tk = tokens(text)
        self.i = 0
        self.scopes = []        # local names, innermost last; empty at the top level

    @property
    def k(self):
        return self.tk[self.i][0]

    def no(self):
        raise Refused(self.tk[self.i][2])

    def next(self):
        if self.k not in ('EOF', 'BAD'):
            self.i += 1

    def eat(self, k):
        if self.k != k:
            self.no()
        self.next()

    def script(self):
        if self.k != 'EOF':
            self.statlist()
        if self.k != 'EOF':
            self.no()

    def statlist(self):
        self.stat()
        while self.k not in ('EOF', '}'):
            self.stat()

    def stat(self, single=False):
        k = self.k
        if k == '}':
            if single:
                raise Unsure()      # a missing statement after if, else, for or while
            return
        if k == 'VAR':
            self.next()
            n = self.tk[self.i]
            if n[0] != 'ID':
                self.no()
            if self.scopes:
                if any(n[1] in s for s in self.scopes):
                    self.no()
                self.scopes[-1].add(n[1])
            self.next()
            if self.k == '=':
                self.next()
                self.expr()
        elif k == 'FUN':
            self.next()
            if self.k != 'ID' or self.scopes:
                self.no()
            self.next()
            self.eat('(')
            self.scopes.append({'self'})
            self.params()
            if self.k == 'STR':
                self.next()
            self.block()
            self.scopes.pop()
        elif k == 'IF':
            self.next()
            self.eat('(')
            self.cond()
            self.eat(')')
            self.body()
            if self.k == 'ELSE':
                self.next()
                self.body()
        elif k == 'WHILE':
            self.next()
            self.eat('(')
            self.cond()
            self.eat(')')
            self.body()
        elif k == 'FOR':
            self.next()
            self.eat('(')
            self.command()
            self.eat(',')
            self.cond()
            self.eat(',')
            self.command()
            self.eat(')')
            self.body()
        else:
            self.command()

    def body(self):
        if self.k == '{':
            self.scopes.append(set() if self.scopes else {'self'})
            self.block()
            self.scopes.pop()
        else:
            self.stat(True)

    def block(self):
        self.eat('{')
        if self.k != '}':
            self.statlist()
        self.eat('}')

    def params(self):
        if self.k != ')':
            while 1:
                if self.k == 'ID':
                    self.scopes[-1].add(self.tk[self.i][1])
                self.eat('ID')
                if self.k != ',':
                    break
                self.next()
        self.eat(')')

    def command(self):
        if self.k == 'RET':
            self.next()
            if self.k == '}':
                return
            return self.cond()
        t = self.ref()
        if self.k == '=':
            if t == 'call':
                self.no()
            self.next()
            self.expr()
        elif t != 'call':
            self.no()

    def ref(self):
        self.eat('ID')
        t = 'var'
        while self.k in ('.', '[', '('):
            k = self.k
            self.next()
            if k == '.':
                self.eat('ID')
                t = 'elem'
            elif k == '[':
                self.expr()
                self.eat(']')
                t = 'elem'
            else:
                if self.k != ')':
                    self.cond()
                    while self.k == ',':
                        self.next()
                        self.cond()
                self.eat(')')
                t = 'call'
        return t

    def cond(self):
        if self.k == 'NOT':
            self.next()
            return self.cond()
        self.cmp()
        while self.k == 'LOG':
            self.next()
            self.cmp()

    def cmp(self):
        self.expr()
        if self.k == 'CMP':
            self.next()
            self.expr()

    def expr(self):
        if self.k == '{':
            self.next()
            if self.k != '}':
                while 1:
                    self.eat('.')
                    if self.k not in ('ID', 'CONST'):
                        self.no()
                    self.next()
                    self.eat('=')
                    self.expr()
                    if self.k != ',':
                        break
                    self.next()
            self.eat('}')
            return
        self.power()
        while self.k in ('ADD', 'MUL', 'MOD'):
            self.next()
            self.power()

    def power(self):
        self.operand()
        while self.k in ('SHIFT', 'BAND', 'POW'):
            self.next()
            self.operand()

    def operand(self):
        while self.k == 'BNOT':
            self.next()
        k = self.k
        if k == 'FUN':
            self.next()
            self.eat('(')
            self.scopes.append(set() if self.scopes else {'self'})
            self.params()
            self.block()
            self.scopes.pop()
        elif k in ('NIL', 'CONST', 'STR'):
            self.next()
        elif k == '(':
            self.next()
            self.cond()
            self.eat(')')
        elif k == 'ADD':
            self.next()
            if self.k == 'CONST':
                self.next()
            else:
                self.power()
        else:
            self.ref()


def accepts(text):
    """True, False, or None if it is not specified; and the line of the first wrong token"""
    try:
        r = Rec(text)
        r.script()
        return True, None
    except Refused as e:
        return False, e.args[0]
    except (Unsure, RecursionError):
        return None, None
