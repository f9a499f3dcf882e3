"""C01-C03: the tokenizer (spec/Lexer.tla, LexTrace.tla, LexMC.tla)."""
GENERAL = [97, 101, 105, 120, 48, 49, 56, 46, 43, 45, 42, 47, 35, 10, 13, 32, 34, 39, 96, 92, 61, 60, 38, 94, 33, 59, 41,
           123, 64, 36, 0, 'é', '١', '\ufeff', b'\xff', '№']
ALPHA = {
    'general': GENERAL,
    'numbers': [48, 49, 55, 56, 57, 46, 101, 120, 105, 43, 97, 70],
    'comments': [97, 47, 42, 35, 10, 32, 13, 40, 59],
    'quotes': [34, 39, 96, 92, 110, 120, 52, 117, 10, 97],
    'operators': [43, 45, 42, 47, 37, 38, 124, 94, 60, 62, 61, 33, 46, 58, 63, 126],
}


def chars(c):
    return bytes([c]) if isinstance(c, int) else c if isinstance(c, bytes) else c.encode()


def diff(case, e):
    o = case['obs']
    if o.get('r') in ('hang', 'dead'):
        return ['verdict', 'term']
    t = o['texts'][0]
    if t['r'] in ('panic', 'runaway'):
        return ['verdict', 'term']
    if e['st'] == 'bad':
        return ['verdict'] if t['r'] != 'bad' else []
    if t['r'] != 'ok':
        return ['verdict', 'tok']
    d = set()
    src = t['src']
    toks = [x for x in e['toks'] if x[3] != 'nl']
    semis, n = [], 0
    for x in e['toks']:
        if x[3] == 'nl':
            semis.append({'o': x[1], 'n': n})
        else:
            n += 1
    if semis != t['semis']:
        d.add('semi')
    if [(x[0], x[1]) for x in toks] != [(x['k'], x['o']) for x in t['toks']]:
        d.add('tok')
        if [x[1] for x in toks if x[0] == 59] != [x['o'] for x in t['toks'] if x['k'] == 59]:
            d.add('semi')
    else:
        for x, y in zip(toks, t['toks']):
            lit = {'none': '', 'src': src[x[1]:x[2]], 'strip': src[x[1]:x[2]].replace('\r', '')}[x[3]]
            if lit != y['lit']:
                d.add('lit')
            if y['e'] != x[2]:
                d.add('endcr' if x[3] == 'strip' and y['e'] == x[1] + len(lit) else 'end')
            if y['line'] != 1 + sum(1 for i in range(y['o']) if src[i] == '\n' and i + 1 < len(src)):
                d.add('line')
    return sorted(d)


def model(ctx, aspects, plan):
    """plan: (alphabet, length, how many texts (None: all), modes)"""
    for k, (alpha, n, num, modes) in enumerate(plan):
        if k > 1 and (ctx.left() < 120 or ctx.violations):
            break
        letters = ALPHA[alpha]
        total = len(letters) ** n
        todo = total if num is None else min(num, total)
        stride = 1 if todo == total else 49999    # 40000 * 49999 stays within the 32-bit integers of TLC
        while stride > 1 and gcd(stride, total) != 1:
            stride += 1
        start = 0 if todo == total else (ctx.seed * 7919 * 31) % total
        pos = 0
        while pos < todo:
            if pos > 0 and (ctx.left() < 100 or ctx.violations):
                break
            part = min(40000, todo - pos)
            lo = (start + pos * stride) % total
            live = n <= 2
            pr = ctx.tlc('LexMC', 'LexMCLive' if live else 'LexMC',
                         env=dict(ALPHA=alpha, LEN=n, LO=lo, STRIDE=stride, NUM=part, MODES=modes, PRINT=1))
            preds = []
            for p in pr['R']:
                src = b''.join(chars(letters[i - 1]) for i in p['w']).decode('latin-1')
                preds.append({'texts': [src], 'mode': p['mode'], 'api': 'matcher' if (len(preds) % 3 == 0) else 'scanner',
                              'kw': [], 'name': '', 'exp': {'st': p['st'], 'toks': p['toks']}})
            ctx.compare('lex', preds, diff, relevant=aspects)
            pos += part
        ctx.notes.setdefault('enumerated_texts', {})['%s^%d' % (alpha, n)] = '%d of %d' % (pos, total)


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


QUICK = {
    'C01': [('general', 2, None, 'all'), ('general', 3, 6000, 'x'), ('operators', 3, None, 'x'), ('numbers', 4, 5000, 'x')],
    'C02': [('general', 2, None, 'all'), ('comments', 4, None, 'semi'), ('comments', 6, 8000, 'semi')],
    'C03': [('general', 2, None, 'all'), ('general', 3, 5000, 'x'), ('quotes', 4, 6000, 'x'), ('numbers', 3, None, 'x')],
}
THOROUGH = {
    'C01': [('general', 2, None, 'all'), ('general', 3, None, 'x'), ('operators', 4, None, 'x'), ('numbers', 5, None, 'x'), ('general', 4, 400000, 'x')],
    'C02': [('general', 2, None, 'all'), ('comments', 5, None, 'semi'), ('comments', 6, None, 'semi'), ('general', 3, None, 'x')],
    'C03': [('general', 2, None, 'all'), ('general', 3, None, 'x'), ('quotes', 5, None, 'x'), ('numbers', 5, None, 'x'), ('quotes', 6, 300000, 'x')],
}


def check(pid, aspects, profiles):
    def f(ctx):
        model(ctx, aspects, ctx.budget(QUICK, THOROUGH)[pid])
        sweep(ctx, pid, aspects)
        for r in range(ctx.budget(1, 12)):
            if r > 0 and (ctx.left() < 100 or ctx.violations):
                break
            cases = []
            for i, (p, w) in enumerate(profiles):
                cases += ctx.gen('lex', w, p, seed_off=1000 + r * 17 + i)
            ctx.validate('lex', 'LexTrace', cases, aspects, batch=3000)
        if pid == 'C01':
            kinds(ctx)
            findings(ctx)
    return f


# every character in every place
SWEEP = [chr(b) for b in range(128)] + [chr(b) for b in (0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xf4, 0xf5, 0xff)] + \
    [c.encode('utf-8', 'surrogatepass').decode('latin-1') for c in
     ('\u00e9', '\u01c5', '\u0660', '\ufeff', '\ufffd', '\u2116', '\u2028', '\ud800', '\U0001d7d8', '\U0010ffff')]
PLACES = {
    'C01': ['%', 'a%', '%a', 'a%b', '1%', '.%', '1.%2', '1e%5', '1e+%', '0%', '0x%', '0x1%2', '09%', '1i%', '`%`', '`a%', '//%\na', '/*%*/a',
            '/*a*%*/', '#%\na', '+%', '-%', '<%', '>%', '&%', '|%', '^%', '=%', '!%', '*%', '/%', ':%', '%%', '.%.', '<%=', '&%=', '_%'],
    'C02': ['a%', 'a%\nb', 'a /* */ %', 'a /**/%\nb', 'a //%\nb', 'a /*%*/\nb', 'a #%\nb', 'a /*%', '%\n', '%\nb', 'a\n%\nb', '1%\n', '"s"%\n', ')%\n',
            'a /*\n*/%', 'a /*%\n*/'],
    'C03': ['%', 'a %', "'%'", "'%%'", "'\\%'", "'\\x4%'", "'\\x%4'", "'\\%01'", "'\\0%1'", "'\\01%'", "'\\u00%1'", "'\\u004%'", '"%"', '"\\%"', '"\\%01"', '"\\x%1"', '"a\\x1%"',
            '"\\0%1"', '"\\U0000004%"', '"\\U%0000041"', '"\\uD7F%"', '"a%', "'%", "'\\%", '"\\%', '`%', '/*%', '/*%*', '0%', '0x%', '0x1%', '08%', '1e%', '1e-%', '.%', '1.%e'],
}


def sweep(ctx, pid, aspects):
    """every ASCII character, and others, in every place of PLACES"""
    cases = []
    for k, place in enumerate(PLACES[pid]):
        for j, ch in enumerate(SWEEP):
            cases.append({'texts': [place.replace('%', ch)], 'mode': (k + j + ctx.seed) % 4, 'api': ('scanner', 'matcher', 'scanner')[(k + j) % 3],
                          'kw': [], 'name': ''})
    for c in cases:
        if pid == 'C02':
            c['mode'] |= 2
    ctx.validate('lex', 'LexTrace', cases, aspects, batch=6000)


def kinds(ctx):
    """the table of token kinds (spec/Kinds.tla)"""
    def differ(case, e):
        o = case['obs']
        if o.get('r') != 'ok' or o['len'] != e['len'] or not o['same']:
            return ['kinds']
        if e['back']:
            return [] if o['lit'] == e['lit'] and o['to'] == e['k'] else ['kinds']
        return [] if o['to'] == 0 and (e['k'] == 0 or o['lit'] == '') else ['kinds']
    pr = ctx.tlc('Kinds')
    ctx.compare('kinds', [{'k': p['k'], 'lit': p['lit'], 'exp': p} for p in pr['R']], differ)


def findings(ctx):
    """K2, listed in known_findings.json: the end of a literal or comment whose carriage returns were removed"""
    for text, what in (('`x\r\ny` z', 'raw string'), ('/* a\r\n b */ z', 'comment')):
        done = ctx.run('lex', [{'texts': [text], 'mode': 1, 'api': 'scanner', 'kw': [], 'name': ''}])
        bad = ctx.judge('LexTrace', done)
        if bad and bad[0][1]['aspects'] == ['endcr']:
            ctx.known_finding('K2', 'Token.End of a %s holding a carriage return is short by the removed characters: %r' % (what, text))


CHECKS = {
    'C01': check('C01', ['tok', 'lit', 'end', 'line'], [('tokens', 700), ('line', 700), ('raw', 600), ('semi', 300), ('long', 60)]),
    'C02': check('C02', ['semi'], [('semi', 1500), ('line', 400), ('raw', 400), ('long', 40)]),
    'C03': check('C03', ['verdict', 'term', 'acts'], [('bad', 1500), ('raw', 900), ('tokens', 200)]),
}
BASE = ('The tokenizer is a state machine in spec/Lexer.tla, one step per blank run, comment or token. TLC enumerates texts over '
        'character-class alphabets (all of length 2 over 36 classes; longer ones seeded, thorough: exhaustive to length 3-6 by alphabet), '
        'checks declarative rules against the machine (nothing lost, longest match, the semicolon rule, termination) and prints predictions '
        'replayed in the real scanner; generated multi-text histories are validated step by step. ')
NOTES = {
    'C01': BASE + 'Judged: kind, literal, offset, end, file and line of every written token, and the table of kinds (spec/Kinds.tla: length, literal, kind of a literal, all kinds). Unicode letter/digit classes are taken from the Go tables. Known finding K2 (end of literals with removed CR).',
    'C02': BASE + 'Judged: place and number of inserted semicolons, and that written ones are reported.',
    'C03': BASE + 'Judged: accept/reject for every text of a history on one scanner, no match on rejected texts, termination.',
}
ASSUME = {k: ['unicode.IsLetter/IsDigit and UTF-8 decoding of the Go library'] for k in NOTES}
