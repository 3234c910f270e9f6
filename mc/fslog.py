"""File-system state machine driven by the system calls of a real run.

trace(argv, root) runs a program under strace (a program started here) and
returns the list of operations that touch files below `root`, plus the markers
written to <root>.marks.  states(ops) is the transition system: every
prefix of the operations and, for a write, every number of bytes of it.
"""
import os
import re
import subprocess
import sys

CALLS = 'open,openat,creat,write,pwrite64,writev,pwritev,pwritev2,rename,renameat,renameat2,unlink,unlinkat,ftruncate,truncate,link,linkat,symlink,symlinkat,mkdir,mkdirat,rmdir,close,dup,dup2,dup3,fcntl,lseek,fallocate,copy_file_range,sendfile'


class Unmodelled(Exception):
    pass


_LINE = re.compile(r'^(\d+)\s+(\w+)\((.*)\)\s+= (-?\d+)(.*)$', re.S)


def _split(args):
    out, depth, cur, q = [], 0, '', False
    i = 0
    for part in re.split(r'("(?:[^"])*"(?:\.\.\.)?)', args):
        if part.startswith('"'):
            cur += part
            continue
        for ch in part:
            if ch in '[{(':
                depth += 1
            elif ch in ']})':
                depth -= 1
            if ch == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
    out.append(cur.strip())
    return out


def _bytes(s):
    m = re.match(r'^"((?:\\x[0-9a-f]{2})*)"', s)
    if not m:
        raise Unmodelled('string ' + s[:80])
    return bytes.fromhex(m.group(1).replace('\\x', ''))


def _fd(s):
    return int(re.match(r'-?\d+', s).group()) if re.match(r'-?\d+', s) else None


def _path(dirarg, s):
    p = _bytes(s).decode('utf-8', 'surrogateescape')
    if os.path.isabs(p):
        return os.path.normpath(p)
    m = re.search(r'<((?:\\x[0-9a-f]{2})*)>', dirarg or '')
    return os.path.normpath(os.path.join(bytes.fromhex(m.group(1).replace('\\x', '')).decode() if m else os.getcwd(), p))


def command(argv, log, inject=()):
    return (['strace', '-f', '--seccomp-bpf', '-y', '-xx', '-s', '100000000', '-o', log, '-e', 'trace=' + CALLS]
            + [a for i in inject for a in ('-e', 'inject=' + i)] + argv)


def parse(log, root, marks):
    """-> ops on files below root; ('mark', text) for writes to the marks file"""
    root = os.path.normpath(root)
    fds, ops, count = {}, [], {}
    pend = {}
    main = None
    with open(log) as f:
        lines = f.read().split('\n')
    for line in lines:
        m = re.match(r'^(\d+)\s+(\w+)\((.*) <unfinished \.\.\.>$', line)
        if m:
            pend[m.group(1)] = (m.group(2), m.group(3))
            continue
        m = re.match(r'^(\d+)\s+<\.\.\. (\w+) resumed>(.*)$', line, re.S)
        if m and m.group(1) in pend:
            n, a = pend.pop(m.group(1))
            line = '%s %s(%s%s' % (m.group(1), n, a, m.group(3))
        m = _LINE.match(line)
        if not m:
            continue
        pid, name, args, ret = m.group(1), m.group(2), m.group(3), int(m.group(4))
        main = main or pid
        if pid == main:
            count[name] = count.get(name, 0) + 1
        if ret < 0:
            continue
        a = _split(args)
        inside = lambda p: p.startswith(root + os.sep)
        op = None
        if name in ('open', 'openat', 'creat'):
            p = _path(a[0], a[1]) if name == 'openat' else _path(None, a[0])
            flags = 'O_WRONLY|O_CREAT|O_TRUNC' if name == 'creat' else a[2] if name == 'openat' else a[1]
            m2 = re.search(r'<((?:\\x[0-9a-f]{2})*)>', m.group(5))
            fds[ret] = {'path': p, 'in': inside(p), 'mark': p == marks, 'h': len(ops)}
            if inside(p) and re.search('O_WRONLY|O_RDWR', flags):
                if 'O_TMPFILE' in flags:
                    raise Unmodelled('O_TMPFILE')
                op = ('open', p, 'O_CREAT' in flags, 'O_TRUNC' in flags, 'O_APPEND' in flags, ret)
            elif inside(p):
                op = ('ropen', p, ret)
        elif name == 'close':
            fds.pop(_fd(a[0]), None)
        elif name in ('dup', 'dup2', 'dup3') or name == 'fcntl' and 'F_DUPFD' in a[1]:
            src = fds.get(_fd(a[0]))
            if src is not None:
                fds[ret] = src
                if src['in']:
                    op = ('dup', _fd(a[0]), ret)
            else:
                fds.pop(ret, None)
        elif name == 'lseek':
            if fds.get(_fd(a[0]), {}).get('in'):
                op = ('seek', _fd(a[0]), ret)
        elif name in ('write', 'pwrite64'):
            d = fds.get(_fd(a[0]))
            if d and d['mark']:
                op = ('mark', _bytes(a[1]).decode().strip())
            elif d and d['in']:
                op = ('write', _fd(a[0]), _bytes(a[1])[:ret], int(a[3]) if name == 'pwrite64' else None)
        elif name in ('writev', 'pwritev', 'pwritev2'):
            d = fds.get(_fd(a[0]))
            if d and d['in']:
                data = b''.join(_bytes(s) for s in re.findall(r'iov_base=("(?:\\x[0-9a-f]{2})*")', a[1]))
                op = ('write', _fd(a[0]), data[:ret], int(a[3]) if name != 'writev' else None)
        elif name in ('rename', 'renameat', 'renameat2', 'link', 'linkat'):
            p, q = (_path(a[0], a[1]), _path(a[2], a[3])) if len(a) > 2 else (_path(None, a[0]), _path(None, a[1]))
            if inside(p) or inside(q):
                if inside(p) != inside(q):
                    op = ('from', p, q) if inside(q) else ('unlink', p)
                    if inside(q):
                        raise Unmodelled('file moved in from outside: ' + p)
                else:
                    op = ('rename' if name.startswith('rename') else 'link', p, q)
        elif name in ('unlink', 'unlinkat', 'rmdir'):
            p = _path(a[0], a[1]) if name == 'unlinkat' else _path(None, a[0])
            if inside(p):
                op = ('unlink', p)
        elif name in ('truncate', 'ftruncate'):
            if name == 'truncate':
                p = _path(None, a[0])
                if inside(p):
                    op = ('truncate', p, int(a[1]))
            elif fds.get(_fd(a[0]), {}).get('in'):
                op = ('ftruncate', _fd(a[0]), int(a[1]))
        elif name in ('symlink', 'symlinkat', 'fallocate', 'copy_file_range', 'sendfile'):
            if root.encode().hex() in args.replace('\\x', ''):
                raise Unmodelled(name)
        if op is not None:
            ops.append(op + ((name, count[name]),) if pid == main else op + (None,))
    return ops


class Disk:
    """contents of the files below root"""

    def __init__(self, files=()):
        self.inode = {}
        self.names = {}
        self.fd = {}
        self.n = 0
        for p, b in dict(files).items():
            self.names[p] = self._new(b)

    def _new(self, b=b''):
        self.n += 1
        self.inode[self.n] = bytearray(b)
        return self.n

    def files(self):
        return {p: bytes(self.inode[i]) for p, i in self.names.items()}

    def key(self):
        return tuple(sorted((p, hash(bytes(self.inode[i]))) for p, i in self.names.items()))

    def apply(self, op, cut=None):
        k = op[0]
        if k == 'open':
            _, p, creat, trunc, app, fd = op[:6]
            if p not in self.names:
                self.names[p] = self._new()
            elif trunc:
                del self.inode[self.names[p]][:]
            self.fd[fd] = {'i': self.names[p], 'off': 0, 'app': app}
        elif k == 'ropen':
            self.fd[op[2]] = {'i': self.names.get(op[1]), 'off': 0, 'app': False}
        elif k == 'dup':
            self.fd[op[2]] = self.fd[op[1]]
        elif k == 'seek':
            self.fd[op[1]]['off'] = op[2]
        elif k == 'write':
            _, fd, data, at = op[:4]
            data = data if cut is None else data[:cut]
            f = self.fd[fd]
            b = self.inode[f['i']]
            o = at if at is not None else len(b) if f['app'] else f['off']
            if len(b) < o:
                b.extend(b'\0' * (o - len(b)))
            b[o:o + len(data)] = data
            if at is None:
                f['off'] = o + len(data)
        elif k == 'rename':
            if op[1] in self.names:
                self.names[op[2]] = self.names.pop(op[1])
        elif k == 'link':
            self.names[op[2]] = self.names[op[1]]
        elif k == 'unlink':
            self.names.pop(op[1], None)
        elif k in ('truncate', 'ftruncate'):
            i = self.names[op[1]] if k == 'truncate' else self.fd[op[1]]['i']
            b = self.inode[i]
            if len(b) > op[2]:
                del b[op[2]:]
            else:
                b.extend(b'\0' * (op[2] - len(b)))


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(d, f), 'rb') as h:
                out[os.path.join(d, f)] = h.read()
    return out


def run(argv, root, marks, log, inject=(), env=None, timeout=600):
    with open(marks, 'wb'):
        pass
    p = subprocess.run(command(argv, log, inject), env=env, capture_output=True, text=True, timeout=timeout)
    return p, parse(log, root, marks)
