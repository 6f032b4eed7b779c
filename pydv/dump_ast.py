"""Front end: runs under Jython 2.7 (the interpreter the code under test runs
on), parses the *current* files and writes their ASTs as JSON.

usage: jython dump_ast.py OUT.json NAME=PATH ...
Nothing is dropped: every field of every node is written, with line numbers.
"""
import ast
import json
import sys
import tokenize
from StringIO import StringIO

# Jython 2.7.3 cannot read back the fields of a DictComp node (its exposed type
# is broken), so `{k: v for ...}` is spelled `__dictcomp__(((k), (v)) for ...)`
# before parsing and becomes a DictComp node again in the output.
MARK = '__dictcomp__'


def spell_dictcomps(src):
    if '{' not in src or MARK in src:
        return src
    stack, edits = [], []
    try:
        for kind, text, (row, col), _, _ in tokenize.generate_tokens(
                StringIO(src).readline):
            if text in ('(', '[', '{') and kind == tokenize.OP:
                stack.append([text, (row, col), None, None])
            elif text in (')', ']', '}') and kind == tokenize.OP:
                b, at, colon, loop = stack.pop()
                if text == '}' and colon and loop and colon < loop:
                    edits += [(at, 1, MARK + '((('), (colon, 1, '), ('),
                              (loop, 3, ')) for'), ((row, col), 1, ')')]
            elif stack and stack[-1][0] == '{':
                if text == ':' and stack[-1][2] is None:
                    stack[-1][2] = (row, col)
                elif text == 'for' and stack[-1][3] is None:
                    stack[-1][3] = (row, col)
    except (tokenize.TokenError, IndentationError, IndexError):
        return src
    lines = src.splitlines(True)
    for (row, col), n, new in sorted(edits, reverse=True):
        ln = lines[row - 1]
        lines[row - 1] = ln[:col] + new + ln[col + n:]
    return ''.join(lines)


def conv(n):
    if n.__class__.__name__ == 'astlist':
        return [conv(x) for x in n]
    if hasattr(n, '_fields') and not isinstance(n, (str, unicode)):
        d = {'_': n.__class__.__name__}
        ln = getattr(n, 'lineno', None)
        if ln is not None:
            d['lineno'] = int(ln)
        for f in n._fields:
            d[f] = conv(getattr(n, f, None))
        if d['_'] == 'Call' and d['func'].get('id') == MARK:
            g = d['args'][0]
            return {'_': 'DictComp', 'lineno': d.get('lineno'),
                    'key': g['elt']['elts'][0], 'value': g['elt']['elts'][1],
                    'generators': g['generators']}
        if d['_'] == 'Num':
            d['n'] = {'t': type(n.n).__name__, 'v': repr(n.n)}
        elif d['_'] == 'Str':
            s = n.s
            d['s'] = s if isinstance(s, unicode) else s.decode('latin1')
        return d
    if isinstance(n, (bool, int, long, float)) or n is None:
        return n
    if isinstance(n, unicode):
        return n
    if isinstance(n, str):
        return n.decode('latin1')
    try:
        return [conv(x) for x in n]
    except TypeError:
        return str(n)


def main(out, pairs):
    res = {}
    for p in pairs:
        name, path = p.split('=', 1)
        src = spell_dictcomps(open(path).read())
        try:
            res[name] = {'path': path, 'ast': conv(ast.parse(src, path))}
        except SyntaxError as e:
            res[name] = {'path': path, 'error': str(e)}
    with open(out, 'w') as f:
        json.dump(res, f)


main(sys.argv[1], sys.argv[2:])
