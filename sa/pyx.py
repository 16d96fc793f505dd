"""Reads the subset of Cython used by the repository as Python syntax.

The translation is purely lexical, keeps line numbers, and drops only type
information: ``cdef``/``cpdef`` headers become ``def``, typed assignments lose
their type, pure declarations become ``pass`` and an ``extern`` block becomes a
set of external C functions."""
import ast
import re

_TYPE = r'(?:(?:unsigned|const|long|short)\s+)*(?:double|float|int|long|short|' \
        r'Py_ssize_t|size_t|bint|object|list|dict|tuple|str|char|void|' \
        r'np\.\w+|cnp\.\w+)\s*(?:\[[^\]]*\])?'
_SIG = re.compile(r'^(\s*)(?:cpdef|cdef|def)\s+(?:inline\s+)?(?:%s\s+)?'
                  r'(?:inline\s+)?(\w+)\s*\((.*)\)\s*(?:nogil|noexcept|'
                  r'except\s*[\w*+?\-. ]*|with\s+gil|\s)*:\s*(.*)$' % _TYPE,
                  re.S)


def _ctype(decl):
    """'cint' / 'cfloat' for scalar C types that lose information."""
    m = re.match(r'^(?:(?:unsigned|const|long|short)\s+)*(\w+)\s*(\[?)', decl)
    if not m or m.group(2):
        return None
    if m.group(1) in ('int', 'long', 'short', 'Py_ssize_t', 'size_t', 'bint'):
        return 'cint'
    if m.group(1) == 'float':
        return 'cfloat'
    return None


def _strip_param(p):
    p = p.strip()
    if not p:
        return p
    default = ''
    if '=' in p:
        p, default = p.split('=', 1)
        default = '=' + default
    q = re.sub(r'^%s\s*' % _TYPE, '', p.strip()) or p.strip()
    q = q.replace('not None', '').replace('or None', '').strip()
    ct = _ctype(p.strip())
    if ct and q != p.strip():
        q += ': "%s"' % ct
    return q + default


def _split_commas(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def translate(text):
    """Return (python_text, extern_names)."""
    lines = text.split('\n')
    out = []
    externs = []
    i = 0
    n = len(lines)
    instr = None
    while i < n:
        line = lines[i]
        if instr:
            out.append(line)
            if instr in line:
                instr = None
            i += 1
            continue
        st = line.strip()
        for q in ('"""', "'''"):
            if st.count(q) == 1 or (st.startswith('r' + q)
                                    and st.count(q) == 1):
                instr = q
        if instr:
            out.append(line)
            i += 1
            continue
        indent = line[:len(line) - len(line.lstrip())]
        if re.match(r'^\s*(from\s+[\w.]+\s+)?cimport\b', line) or \
                re.match(r'^\s*from\s+cython\b', line):
            out.append(indent + 'pass')
            i += 1
            continue
        if re.match(r'^\s*@cython\.', line):
            out.append('')
            i += 1
            continue
        if re.match(r'^\s*cdef\s+extern\b', line):
            out.append(indent + 'pass')
            i += 1
            while i < n and (not lines[i].strip() or
                             lines[i].startswith(indent + ' ') or
                             lines[i].startswith(indent + '\t')):
                if not lines[i].strip():
                    # a blank line ends the block only before a dedent
                    out.append('')
                    i += 1
                    continue
                m = re.match(r'^\s*(?:%s)\s+(\w+)\s*\(' % _TYPE, lines[i])
                if m:
                    externs.append(m.group(1))
                out.append('')
                i += 1
            continue
        if re.match(r'^\s*(cpdef|cdef|def)\b.*\(', line) and not re.match(
                r'^\s*cdef\b[^()]*=', line):
            j = i
            buf = line
            while (buf.count('(') > buf.count(')') or
                   not re.search(r':\s*(#.*)?$', buf.split('\n')[-1].rstrip())):
                j += 1
                if j >= n:
                    break
                buf += '\n' + lines[j]
            m = _SIG.match(buf)
            if m:
                params = [_strip_param(p) for p in _split_commas(m.group(3))]
                head = re.sub(r'^\s*(cpdef|cdef|def)\s+(inline\s+)?', '', buf)
                ct = _ctype(head)
                ret = ''
                if ct and not head.startswith(m.group(2) + '('):
                    ret = ' -> "%s"' % ct
                out.append('%sdef %s(%s)%s: %s' % (
                    m.group(1), m.group(2), ', '.join(params), ret,
                    m.group(4)))
                for _ in range(j - i):
                    out.append('')
                i = j + 1
                continue
        m = re.match(r'^(\s*)cdef\s+(?:inline\s+)?(.*)$', line)
        if m:
            body = re.sub(r'^%s\s*' % _TYPE, '', m.group(2), count=1)
            ct = _ctype(m.group(2))
            if ct:
                out.append(m.group(1) + '; '.join(
                    re.sub(r'^(\w+)', r'\1: "%s"' % ct, p.strip())
                    for p in _split_commas(body)))
            elif '=' in body:
                # declarations with an initialiser keep the assignments
                parts = _split_commas(body)
                if sum('=' in p for p in parts) == len(parts) and \
                        len(parts) > 1:
                    out.append(m.group(1) + '; '.join(
                        p.strip() for p in parts))
                elif len(parts) > 1 and '=' not in parts[0]:
                    out.append(m.group(1) + '; '.join(
                        p.strip() for p in parts if '=' in p))
                else:
                    out.append(m.group(1) + body)
            else:
                out.append(m.group(1) + 'pass')
            i += 1
            continue
        # casts such as <double>x
        out.append(re.sub(r'<\s*(?:double|int|float|Py_ssize_t)\s*>', '',
                          line))
        i += 1
    return '\n'.join(out), externs


def parse(text, filename):
    py, externs = translate(text)
    return ast.parse(py, filename), externs
