"""Mechanical extraction of functions from /repo into a Verus file.

A sidecar (verus/pNN.py) lists the items of /repo it puts under contract. For each, the text of the current source is
copied token for token; what is added is specification only (requires/ensures after the signature, invariants at loop
headers, ghost statements at named places). What is dropped or rewritten is exactly: comments, attributes, and the
`rewrite` entries of the item, each of which carries its reason and is reported in the evidence. An item or a place that
is no longer found makes the stage give no answer; it is never an alarm.
"""
import json, os, re, time


class Lost(Exception):
    pass


def blank(src):
    """src with comments and the insides of string/char literals blanked (same length), for brace matching."""
    out = list(src)
    i, n = 0, len(src)

    def wipe(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    while i < n:
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j):
                    d += 1
                    j += 2
                elif src.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            wipe(i, j)
            i = j
        elif (m := re.compile(r'\bb?r(#*)"').match(src, i)):
            j = src.find('"' + m.group(1), m.end())
            wipe(m.end(), j)
            i = j + 1 + len(m.group(1))
        elif src[i] == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            wipe(i + 1, j)
            i = j + 1
        elif (m := re.compile(r"'(\\.[^']*|[^'\\])'").match(src, i)):
            wipe(i + 1, m.end() - 1)
            i = m.end()
        else:
            i += 1
    return ''.join(out)


def nocomment(src):
    """src without comments (literals kept)."""
    b = blank(src)
    out = []
    for i, c in enumerate(src):
        out.append(c)
    # a comment is where blank() wiped outside of a literal: find comment starts again
    res, i = [], 0
    while i < len(src):
        if src[i] == '"' and b[i] == '"':
            j = b.index('"', i + 1)
            res.append(src[i:j + 1])
            i = j + 1
        elif src.startswith('//', i) and b[i] == ' ':
            j = src.find('\n', i)
            i = len(src) if j < 0 else j
        elif src.startswith('/*', i) and b[i] == ' ':
            j = i
            while j < len(src) and b[j] in ' \n' and not (src.startswith('*/', j)):
                j += 1
            i = j + 2
        else:
            res.append(src[i])
            i += 1
    return ''.join(res)


def close(b, i, o='{', c='}'):
    d = 0
    while i < len(b):
        if b[i] == o:
            d += 1
        elif b[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise Lost('unbalanced braces')


def body_open(b, i):
    """index of the `{` that opens the block after a header starting at i (skipping parens and brackets)."""
    d = 0
    while i < len(b):
        if b[i] in '([':
            d += 1
        elif b[i] in ')]':
            d -= 1
        elif b[i] == '{' and d == 0:
            return i
        elif b[i] == ';' and d == 0:
            raise Lost('no body')
        i += 1
    raise Lost('no body')


def region(src, header):
    """(start, end) of the block whose header matches the regex, e.g. r'impl CRC32'; None header: the whole file."""
    b = blank(src)
    if header is None:
        return 0, len(src)
    m = re.search(header, b)
    if not m:
        raise Lost(f'`{header}` not found')
    o = body_open(b, m.start())
    return o + 1, close(b, o)


def squash(s):
    return re.sub(r'\s+', ' ', s).strip()


class Item:
    """One item of the source under contract.

    kind: fn | const | struct | enum | type.   within: regex of the enclosing impl/trait/mod header.
    spec: text after the signature. ret: name of the result. start/end: ghost text at the start / before the last
    expression of the body. loops: list of dict(spec, iter, start, end, after). at: list of (regex, 'before'|'after', text).
    rewrite: list of (regex, replacement, reason). wrap: (before, after) text around the item.
    """
    def __init__(self, file, kind, name, within=None, spec='', ret='r', start='', loops=(), at=(), rewrite=(), wrap=('', ''), rename=None, attrs='', vis=None):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.dropped = []

    def find(self, repo):
        src = open(os.path.join(repo, self.file)).read()
        src = nocomment(src)
        a, z = region(src, self.within)
        b = blank(src)
        n = re.escape(self.name)
        pat = {'fn': rf'(pub(\([^)]*\))?\s+)?(const\s+)?fn\s+{n}\b', 'const': rf'(pub(\([^)]*\))?\s+)?(const|static)\s+{n}\s*:', 'struct': rf'(pub(\([^)]*\))?\s+)?struct\s+{n}\b',
               'enum': rf'(pub(\([^)]*\))?\s+)?enum\s+{n}\b', 'type': rf'(pub(\([^)]*\))?\s+)?type\s+{n}\b'}[self.kind]
        hits = [m for m in re.finditer(pat, b) if a <= m.start() < z]
        if len(hits) != 1:
            raise Lost(f'{self.file}: {len(hits)} candidates for {self.kind} {self.name}')
        i = hits[0].start()
        if self.kind in ('fn', 'enum') or (self.kind == 'struct'):
            o = body_open(b, i)
            return src[i:close(b, o) + 1]
        d = 0
        for j in range(i, len(b)):
            if b[j] in '([{':
                d += 1
            elif b[j] in ')]}':
                d -= 1
            elif b[j] == ';' and d == 0:
                return src[i:j + 1]
        raise Lost('unterminated item')

    def text(self, repo):
        t = self.find(repo)
        for rx, to, why in self.rewrite:
            t2, k = re.subn(rx, to, t)
            if k == 0:
                raise Lost(f'{self.name}: nothing matches the declared rewrite `{rx}`')
            if t2 != t:
                self.dropped.append(f'{self.name}: `{rx}` -> `{to}` ({why})')
            t = t2
        # attributes inside the item are dropped
        t = re.sub(r'#\[[^\]]*\]\s*', '', t)
        if self.kind != 'fn':
            return self.wrap[0] + self.attrs + t + self.wrap[1]
        b = blank(t)
        o = body_open(b, 0)
        sig, body = t[:o].rstrip(), t[o:]
        if '->' in blank(sig):
            k = blank(sig).rindex('->') if not re.search(r'\bwhere\b', sig) else blank(sig).index('->')
            w = re.search(r'\bwhere\b', sig[k:])
            ty = sig[k + 2:k + w.start()] if w else sig[k + 2:]
            sig = f'{sig[:k]}-> ({self.ret}: {ty.strip()})' + (' ' + sig[k + w.start():] if w else '')
        if self.rename:
            sig = re.sub(rf'fn\s+{re.escape(self.name)}\b', f'fn {self.rename}', sig, count=1)
        if self.vis is not None:
            sig = re.sub(r'^pub(\([^)]*\))?\s+', '', sig)
            sig = self.vis + sig
        body = self.annotate(body)
        return f'{self.wrap[0]}{self.attrs}{sig}\n{self.spec}\n{body}{self.wrap[1]}'

    def annotate(self, body):
        ins = []  # (position, order, text)
        b = blank(body)
        ins.append((1, 0, '\n' + self.start + '\n' if self.start else ''))
        if self.loops:
            heads = [m.start() for m in re.finditer(r"(?<![\w'])(for|while|loop)\b(?!\s*<)", b)]
            if len(heads) != len(self.loops):
                raise Lost(f'{self.name}: {len(heads)} loops, {len(self.loops)} expected')
            for h, l in zip(heads, self.loops):
                o = body_open(b, h)
                c = close(b, o)
                if l.get('iter'):
                    m = re.compile(r'\bin\b').search(b, h)
                    if not m or m.start() > o:
                        raise Lost(f'{self.name}: loop is not a `for`')
                    ins.append((m.end(), 0, f' {l["iter"]}:'))
                ins.append((o, 0, '\n' + l.get('spec', '') + '\n'))
                ins.append((o + 1, 0, '\n' + l.get('start', '') + '\n'))
                ins.append((c, 0, '\n' + l.get('end', '') + '\n'))
                ins.append((c + 1, 0, '\n' + l.get('after', '') + '\n'))
        for rx, where, text in self.at:
            m = list(re.finditer(rx, body))
            if len(m) != 1:
                raise Lost(f'{self.name}: {len(m)} places match `{rx}`')
            ins.append((m[0].start() if where == 'before' else m[0].end(), 1, f' {text} '))
        out, p = [], 0
        for pos, _, text in sorted(ins, key=lambda x: (x[0], x[1])):
            out.append(body[p:pos])
            out.append(text)
            p = pos
        out.append(body[p:])
        return ''.join(out)


FAILED = re.compile(r'postcondition not satisfied|precondition not satisfied|requires not satisfied|invariant not satisfied|assertion failed|assertion not satisfied|arithmetic (under|over)flow|division by zero|decreases not satisfied|'
                    r'recommendation not met|index out of bounds|bit shift (under|over)flow|failed to simplify|assert_by_compute|expression simplifies to false|possible .*overflow|loop invariant|unable to prove|unreachable', re.I)


class Verus:
    def __init__(self, prop, mod, repo, build, sh, deep, fresh):
        self.prop, self.mod, self.repo, self.build, self.sh, self.deep, self.fresh = prop, mod, repo, build, sh, deep, fresh
        self.error, self.failed, self.verified, self.total, self.solver_s, self.cmd, self.parts = None, [], 0, 0, 0.0, '', []

    def run(self, timeout):
        """Each unit of the sidecar is a file of its own: one lost anchor does not take the others with it."""
        os.makedirs(self.build + '/verus', exist_ok=True)
        from concurrent.futures import ThreadPoolExecutor
        made = []
        self.lost = []
        if hasattr(self.mod, 'make'):
            try:
                made, self.lost = self.mod.make(self.repo, self.build, self.sh, self.deep, self.fresh)
            except Lost as e:
                self.lost = [str(e)]
        with ThreadPoolExecutor(8 if made else 3) as ex:
            list(ex.map(lambda u: self.unit(u, timeout), self.mod.UNITS + made))
        self.cmd = ' ; '.join(p['cmd'] for p in self.parts if p.get('cmd'))
        for p in self.parts:
            p.pop('cmd', None)
        bad = [p['note'] for p in self.parts if p.get('note')] + ([f'{len(self.lost)} not under contract: ' + '; '.join(self.lost)[:600]] if self.lost else [])
        if bad:
            self.error = 'verus gave no answer for: ' + ' | '.join(bad)

    def unit(self, u, timeout, part=None):
        name = u['name']
        if part is None:
            part = {'unit': name}
            self.parts.append(part)
        part |= {'functions': u.get('names') or [f'{i.file}: {i.name}' for i in u['items'] if i.kind == 'fn'], 'ensures': u['about'], 'verified': 0, 'errors': 0}
        part.pop('note', None)
        try:
            chunks, line, spans = [], 1, []
            if 'pieces' in u:
                pieces = [(a or '?', t) for a, t in u['pieces']()]
            head = u.get('uses', '') + '\nuse vstd::prelude::*;\n#[allow(unused_imports)]\nuse vstd::arithmetic::{div_mod::*, mul::*, power2::*};\nverus! {\n'
            if 'pieces' not in u:
                pieces = [('spec', head + u.get('spec', ''))] + [(i.rename or i.name, i.text(self.repo)) for i in u['items']] + [('lemmas', u.get('lemmas', '') + '\nfn main() {}\n}\n')]
            for nm, t in pieces:
                t += '\n'
                spans.append((line, line + t.count('\n') - 1, nm))
                line += t.count('\n')
                chunks.append(t)
        except (Lost, OSError) as e:
            part['note'] = f'{name}: anchor lost: {e}'
            return
        f = f'{self.build}/verus/{self.prop}_{name}.rs'
        text = ''.join(chunks)
        with open(f, 'w') as fh:
            fh.write(text)
        part['rewrites'] = sorted(set(u['rw'])) if 'rw' in u else [d for i in u['items'] for d in i.dropped]
        part['trusted'] = [f"{text.count('external_body')} functions of field types, by their contracts"] if 'pieces' in u else sorted(set(re.findall(r'assume_specification[^\n]*|#\[verifier::external_body\][^\n]*\n[^\n]*|\badmit\(\)|\bassume\([^\n]*', text)))
        if re.search(r'\badmit\(\)|\bassume\(', text):
            part['note'] = f'{name}: the file contains an assumption'
            return
        cmd = ['verus', f, '--output-json', '--time', '--rlimit', str(u.get('rlimit', 12)), '--multiple-errors', '2', '--num-threads', '1' if 'pieces' in u else '4'] + ([] if u.get('trusted') else ['--no-cheating'])
        part['cmd'] = ' '.join(cmd)
        rc, out = self.sh(cmd, timeout, cwd=self.build + '/verus', RUST_MIN_STACK='1000000000')
        m = re.search(r'^\{.*^\}', out, re.S | re.M)
        try:
            j = json.loads(m.group(0)) if m else {}
        except ValueError:
            j = {}
        r = j.get('verification-results', {})
        part['verified'], part['errors'] = r.get('verified', 0), r.get('errors', 0)
        try:
            part['smt_s'] = round(j['times-ms']['smt']['total'] / 1000, 3)
            self.solver_s += part['smt_s']
        except (KeyError, TypeError):
            pass
        if r.get('success') and part['verified'] > 0:
            self.verified += part['verified']
            self.total += part['verified']
            return
        msgs = re.findall(r'^error(?:\[[^\]]*\])?: ([^\n]*)(?:\n\s*-->\s*[^\n:]*:(\d+):\d+)?', out, re.M)
        msgs = [(a, int(ln) if ln else 0) for a, ln in msgs if not a.startswith('aborting')]
        hard = [a for a, _ in msgs if not FAILED.search(a)]
        if hard and 'pieces' in u and rc is not None:
            # what is not accepted as Verus text gives no answer; the rest of the unit goes on without it
            own = {next((n for s, e, n in spans if s <= ln <= e), '?') for a, ln in msgs if not FAILED.search(a)} - {'?'}
            left = [n for n in u['names'] if n not in own]
            if own and left:
                self.lost += [f'{n}: {hard[0][:160]}' for n in sorted(own)]
                return self.unit({**u, 'names': left, 'pieces': u['again'](left)}, timeout, part)
        if rc is None or hard or not msgs or re.search(r'rlimit|resource limit', re.sub(r'^\{.*^\}', '', out, flags=re.S | re.M), re.I):
            part['note'] = f'{name}: ' + ('timed out' if rc is None else (hard or ['no result'])[0][:200])
            return
        self.verified += part['verified']
        self.total += part['verified'] + max(1, part['errors'])
        names = []
        for a, ln in msgs:
            nm = next((n for s, e, n in spans if s <= ln <= e), '?')
            names.append(f'{name}::{nm}: {a}')
        part['failed'] = names
        self.failed.append({'name': '; '.join(names)[:300].replace(' ', '_').replace('/', '_')[:60], 'what': '; '.join(names), 'output': re.sub(r'^\{.*^\}', '', out, flags=re.S | re.M)[-8000:]})

    def report(self):
        return self.parts
