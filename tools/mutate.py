#!/usr/bin/env python3
"""Systematic small mutants of /repo's non-test sources (token and line level).
   mutate.py list | run OUT [FILE-SUBSTRING...]
Each mutant that compiles and passes the 48 tests is run through the checks of its crate
(in scratch copies under $MUT_LAB, default /tmp/lab) until one reports a violation; the ones nothing
reports are listed as SURVIVOR, to be judged by hand (equivalent, or a gap)."""
import re, os, sys, subprocess, json, hashlib
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
LAB = os.environ.get('MUT_LAB', '/tmp/lab')
REPO = '/repo'
SRC = sorted(subprocess.run("find smtp-message/src smtp-server/src smtp-queue/src -name '*.rs'", shell=True, cwd=REPO, capture_output=True, text=True).stdout.split())
SWAPS = [('==', '!='), ('!=', '=='), ('<=', '<'), ('>=', '>'), ('&&', '||'), ('||', '&&'), ('is_some()', 'is_none()'), ('is_none()', 'is_some()'),
 ('is_ok()', 'is_err()'), ('is_err()', 'is_ok()'), ('!= 0', '== 0'), ('many0!', 'many1!'), ('many1!', 'many0!'), ('tag_no_case!', 'tag!'), ('first()', 'last()'), ('last()', 'first()'),
 ('.min(', '.max('), ('true', 'false'), ('false', 'true'), ('Ready(None)', 'Pending'), ('split_to', 'split_off'), ('split_off', 'split_to'), ('Ok(())', 'Err(())'),
 ('eat_spaces >>', ''), ('opt!(', 'map!('), ('take()', 'clone()'), ('one_of!', 'none_of!'), ('digit', 'alphanumeric'), ('alphanumeric', 'alpha'), ('.fuse()', ''), ('.to_vec()', '.to_vec()'),
 ('preceded!', 'terminated!'), ('terminated!', 'preceded!'), ('Accept', 'Reject'), ('from', 'to'), ('starts_with', 'ends_with'), ('.freeze()', ''), ('as_ref()', 'as_ref()'),
 ('separated_nonempty_list_complete', 'separated_list_complete'), ('separated_list_complete', 'separated_nonempty_list_complete'), ('eof!', 'not!'), (' - ', ' + '), (' + ', ' - '), (' < ', ' <= '), (' > ', ' >= '), (' < ', ' > '), (' % ', ' / ')]
def mutants(f):
    text = open(f'{REPO}/{f}').read()
    body = text.split('#[cfg(test)]')[0]
    lines = body.split('\n')
    rest = text[len(body):]
    seen = set()
    def emit(i, new, what):
        if new == lines[i] or (i, new) in seen: return
        seen.add((i, new))
        out = '\n'.join(lines[:i] + ([new] if new is not None else []) + lines[i+1:]) + rest
        return (f, i + 1, what, lines[i].strip(), (new or '').strip(), out)
    res = []
    def add(*a):
        m = emit(*a)
        if m: res.append(m)
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('use ') or s.startswith('pub use') or s.startswith('#[') or s.startswith('mod ') or s.startswith('extern'): continue
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), l):
                if a.isalpha() and (l[m.start()-1:m.start()].isalnum() or l[m.end():m.end()+1].isalnum() or l[m.end():m.end()+1] == '_' or l[m.start()-1:m.start()] == '_'): continue
                add(i, l[:m.start()] + b + l[m.end():], f'{a} -> {b}')
        for m in re.finditer(r'(?<![\w"\\.])\d+(?![\w"])', l):
            n = int(m.group())
            for k in {n + 1, max(n - 1, 0)} - {n}:
                add(i, l[:m.start()] + str(k) + l[m.end():], f'{n} -> {k}')
        for m in re.finditer(r'(b?)"((?:[^"\\]|\\.)*)"', l):
            q, x = m.group(1), m.group(2)
            toks = re.findall(r'\\x..|\\.|.', x)
            if toks and len(toks) < 40:
                add(i, l[:m.start()] + f'{q}"' + ''.join(toks[:-1]) + '"' + l[m.end():], 'string: last char dropped')
                add(i, l[:m.start()] + f'{q}"' + ''.join(toks[1:]) + '"' + l[m.end():], 'string: first char dropped')
                if len(toks) > 2: add(i, l[:m.start()] + f'{q}"' + ''.join(toks[:1] + toks[2:]) + '"' + l[m.end():], 'string: second char dropped')
                add(i, l[:m.start()] + f'{q}"' + ''.join(toks + ['z']) + '"' + l[m.end():], 'string: z added')
        for m in re.finditer(r"b'((?:[^'\\]|\\.))'", l):
            for z in ["b'\\r'", "b'\\n'", "b'.'", "b' '"]:
                add(i, l[:m.start()] + z + l[m.end():], 'byte -> ' + z)
        for m in re.finditer(r'(?<![\w=!<>])!(?=[\w(])', l):
            if l[m.start()-1:m.start()] not in ('', ' ', '('): continue
            add(i, l[:m.start()] + l[m.end():], '! dropped')
        if re.match(r'(if|while|\} else if) (?!let)(.*) \{$', s):
            mm = re.match(r'(\s*(?:\} else )?(?:if|while) )(.*)( \{)$', l)
            if mm:
                add(i, mm.group(1) + 'true' + mm.group(3), 'condition true'); add(i, mm.group(1) + 'false' + mm.group(3), 'condition false'); add(i, mm.group(1) + '!(' + mm.group(2) + ')' + mm.group(3), 'condition negated')
        if s.endswith(';') and not s.startswith('let ') and s.count('(') == s.count(')') and not s.startswith('return') and not s.startswith('type') :
            add(i, None, 'statement deleted')
        if s.endswith('?;'):
            add(i, re.sub(r'(\S.*)\?;$', r'let _ = \1;', l), 'error ignored')
        if s.endswith('>>') and s.count('(') == s.count(')'):
            add(i, None, 'parser step deleted')
        if s.endswith('|') and s.count('(') == s.count(')'):
            add(i, None, 'alternative deleted')
        if re.match(r'\.\w+\(.*\)$', s) or re.match(r'\.\w+\(.*\)[,;]?$', s):
            add(i, None, 'call in chain deleted')
        for m in re.finditer(r'\b(already_in_mail|mail_okay|rcpt_okay|rcpt_before_mail|data_okay|mail_accepted|data_before_rcpt|data_before_mail|command_unimplemented|command_unrecognized|welcome_banner)\(\)', l):
            for z in ['mail_okay', 'command_unrecognized', 'data_before_mail']:
                if z != m.group(1): add(i, l[:m.start()] + z + '()' + l[m.end():], f'{m.group(1)} -> {z}')
        for m in re.finditer(r'ReplyCode::([A-Z_]+)', l):
            for z in ['OKAY', 'BAD_SEQUENCE']:
                if z != m.group(1): add(i, l[:m.start()] + 'ReplyCode::' + z + l[m.end():], f'{m.group(1)} -> {z}')
        m = re.search(r'\[(\w*|\w+[^\[\]]*)\.\.(=?)([^\[\]]*)\]', l)
        if m and m.group(1): add(i, l[:m.start(1)] + '(' + m.group(1) + ') + 1' + l[m.end(1):], 'range start + 1')
        if m and m.group(3): add(i, l[:m.start(3)] + '(' + m.group(3) + ') - 1' + l[m.end(3):], 'range end - 1')
    return res
ALLM = ['M%02d' % k for k in range(1, 21)]; ALLS = ['S%02d' % k for k in range(1, 13)]; ALLQ = ['Q%02d' % k for k in range(1, 6)]
FIRST = {'data/stream': ['M01', 'M02', 'M03', 'M07'], 'data/sink': ['M04', 'M05', 'M06'], 'data/mod': ['M05'], 'prependable': ['M08', 'M03'], 'email': ['M12', 'M11', 'M10', 'M13'], 'domain': ['M13', 'M12', 'M11'], 'reply': ['M16', 'M15', 'M14'],
 'byteslice': ['M20'], 'smtpstring': ['M19', 'M20', 'M18'], 'parameters': ['M10', 'M09'], 'parseresult': ['M09', 'M12'], 'builderror': ['M15', 'M17']}
def order(f):
    if f.startswith('smtp-server'): return ALLS
    if f.startswith('smtp-queue'): return ALLQ
    h = next((v for k, v in FIRST.items() if k in f), ['M09', 'M10'])
    return h + [x for x in ALLM if x not in h] + ['S02', 'S11']
ENV = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1')
def sh(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors='replace')
    try: o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 'TIMEOUT', ''
    return p.returncode, o
def prepare(k):
    L = f'{LAB}/mutant{k}'
    os.makedirs(L, exist_ok=True)
    sh(f'rsync -a --delete --exclude target --exclude .git /repo/ {L}/repo/; rsync -a --delete --exclude target --exclude .git --exclude evidence --exclude replays --exclude seeded /verif/ {L}/verif/; sed -i "s#\\"/repo/#\\"{L}/repo/#" {L}/verif/harness/*/Cargo.toml', '/', 100)
    return L
def judge(L, m):
    f, line, what, old, new, text = m
    p = f'{L}/repo/{f}'
    keep = open(f'{REPO}/{f}').read()
    open(p, 'w').write(text)
    try:
        rc, o = sh('cargo test --workspace --exclude smtp-server-fuzz --no-fail-fast --offline -- --test-threads 4', f'{L}/repo', 120, {'CARGO_TARGET_DIR': f'{L}/target', 'CARGO_PROFILE_DEV_DEBUG': 'line-tables-only'})
        if rc == 'TIMEOUT': return 'tests', 'timeout'
        if 'error: could not compile' in o or re.search(r'^error(\[|:)', o, re.M) and ' ... ok' not in o: return 'no-compile', ''
        if len(re.findall(r'^test .* \.\.\. ok$', o, re.M)) != 48: return 'tests', ''
        b = {'smtp-message': 'msg', 'smtp-server': 'srv', 'smtp-queue': 'queue'}[f.split('/')[0]]
        pk = '-p msg -p srv' if b == 'msg' else f'-p {b}'
        rc, o = sh(f'cargo build --release --offline --locked {pk}', f'{L}/verif/harness', 300, {'CARGO_TARGET_DIR': f'{L}/htarget'})
        if rc != 0: return 'HARNESS-BUILD', o[-300:]
        for c in order(f):
            b = {'M': 'msg', 'S': 'srv', 'Q': 'queue'}[c[0]]
            rc, o = sh(f'{L}/htarget/release/{b} {c}', L, 600, {'VERIF_ROOT': f'{L}/verif', 'VERIF_THREADS': '2', 'VERIF_TIER': 'quick'})
            if rc == 1 and 'VIOLATION property' in o: return 'caught', c
            if rc != 0: return 'NO-ANSWER', f'{c} {rc} {o[-200:]}'
        return 'SURVIVOR', ''
    finally:
        open(p, 'w').write(keep)
if __name__ == '__main__':
    files = [f for f in SRC if not sys.argv[3:] or any(x in f for x in sys.argv[3:])]
    ms = [m for f in files for m in mutants(f)]
    if sys.argv[1] == 'list':
        for m in ms: print(*m[:5], sep=' | ')
        print(len(ms)); sys.exit()
    done = set()
    if os.path.exists(sys.argv[2]):
        done = {l.split('\t')[0] for l in open(sys.argv[2])}
    slots = Queue()
    N = int(os.environ.get('SLOTS', '4'))
    for k in range(N): slots.put(prepare(k))
    out = open(sys.argv[2], 'a')
    def go(m):
        key = hashlib.sha1((m[0] + m[5]).encode()).hexdigest()[:12]
        if key in done: return
        L = slots.get()
        try: r = judge(L, m)
        finally: slots.put(L)
        out.write('\t'.join([key, r[0], r[1].replace('\n', ' ').replace('\t', ' '), f'{m[0]}:{m[1]}', m[2], m[3], m[4]]) + '\n'); out.flush()
    with ThreadPoolExecutor(N) as ex: list(ex.map(go, ms))
