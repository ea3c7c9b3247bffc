"""C30: every arm of every exported macro expands, in a crate that imports nothing, to code that type-checks."""
import json
import os
import re
import shutil
import tempfile
import run


def check(R, tier):
    os.makedirs(run.BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='hyg', dir=run.BUILD)
    d = os.path.join(run.VERIF, 'hygiene')
    try:
        e = run.base_env()
        e['CARGO_TARGET_DIR'] = tmp
        r = run.sh(['cargo', 'check', '--offline', '--message-format=json'], env=e, cwd=d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    src = open(os.path.join(d, 'src/lib.rs')).read().split('\n')
    arms = {}
    for i, line in enumerate(src, 1):
        m = re.match(r'\s*fn (\w+)\(', line)
        if m:
            arms[i] = m.group(1)
    built = False
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'adextopa_core':
            built = True
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
            continue
        if m['target']['name'] != 'hygiene':
            raise run.Broken('/repo does not build: ' + m['message']['message'])
        msg = m['message']['message']
        if msg.startswith('aborting due') or msg.startswith('could not compile'):
            continue
        if 'cannot find macro' in msg and 'in this scope' in msg or 'no rules expected' in msg or 'unexpected end of macro' in msg:
            sp = m['message'].get('spans') or []
            inner = any(s.get('expansion') for s in sp)
            if not inner:
                raise run.Broken('the macro use no longer fits: ' + msg)
        fn = '?'
        for s in m['message'].get('spans') or []:
            while s:
                if s['file_name'].endswith('hygiene/src/lib.rs') or s['file_name'] == 'src/lib.rs':
                    for i in range(s['line_start'], 0, -1):
                        if i in arms:
                            fn = arms[i]
                            break
                s = (s.get('expansion') or {}).get('span')
        R.bad('macro arm %s' % fn, 'a client that imports nothing from the crate cannot use the macro (witness fn %s): %s' % (fn, msg))
    if not built or (r.returncode != 0 and not R.violations):
        raise run.Broken('the hygiene crate was not checked:\n' + r.stderr[-2000:])
    R.count('obligations', len(arms))
    used = set(re.findall(r'::adextopa_core::(\w+)!', '\n'.join(src)))
    have = set()
    for root, _, fs in os.walk('/repo/src'):
        for f in fs:
            if f.endswith('.rs'):
                t = open(os.path.join(root, f)).read()
                have |= set(re.findall(r'#\[macro_export\]\s*(?:#\[[^\]]*\]\s*)*macro_rules!\s*(\w+)', t))
    R.count('macros', len(have))
    R.count('macros used by the witness', len(have & used))
    for n in sorted(have - used):
        R.notes['macro not used by the witness: ' + n] = 1
    R.samples += ['fn %s type-checks' % a for a in list(arms.values())[:5]]
