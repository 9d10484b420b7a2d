"""Property-based testing engine of the Python checks, the counterpart of ../pbt.h.

A case is a finite sequence of integer choices: a run is a pure function of the
code under test, VERIF_SEED and the tier; shrinking and replay work on choices.
"""
import argparse
import faulthandler
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback


class Discard(Exception):
    pass


class Failed(Exception):
    def __init__(self, signature, message):
        super().__init__(signature)
        self.signature, self.message = signature, message


def check(signature, ok, *what):
    if not ok:
        raise Failed(signature, ' '.join(str(x() if callable(x) else x) for x in what))


class Gen:
    def __init__(self, rng=None, choices=None, size=30):
        self.rng, self.given, self.size = rng, choices, size
        self.choices, self.text, self.is_nontrivial = [], '', False

    def draw(self, most):
        """Integer in [0, most], shrinks towards 0."""
        if self.given is not None:
            k = len(self.choices)
            x = min(self.given[k], most) if k < len(self.given) else 0
        else:
            x = self.rng.randint(0, most)
        self.choices.append(x)
        if Gen.tape is not None and len(self.choices) < len(Gen.tape):
            Gen.tape[len(self.choices)] = x
            Gen.tape[0] = len(self.choices)
        return x

    tape = None  # where a supervisor finds the choices if this process dies

    def integer(self, lo, hi):
        return lo + self.draw(hi - lo)

    def boolean(self, p=0.5):
        return self.draw(999) >= 1000 - round(1000 * p)

    def pick(self, items):
        items = list(items)
        return items[self.draw(len(items) - 1)]

    def length(self, lo, hi):
        return lo + self.draw(max(0, min(hi - lo, self.size)))

    def permutation(self, items):
        items, out = list(items), []
        while items:
            out.append(items.pop(self.draw(len(items) - 1)))
        return out

    def subset(self, items, p=0.5):
        return [x for x in items if self.boolean(p)]

    def note(self, text):
        self.text += text + '\n'

    def nontrivial(self, ok):
        self.is_nontrivial = self.is_nontrivial or bool(ok)


class Hang(BaseException):
    pass


def run_case(fn, gen, seconds=20):
    def stop(*_):
        raise Hang()

    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        fn(gen)
    except Discard:
        return 'discard'
    except Failed as e:
        return e
    except Hang:
        return Failed('hang', f'no result after {seconds} s')
    except Exception as e:
        last = traceback.extract_tb(e.__traceback__)[-1]
        return Failed(f'unexpected {type(e).__name__} in {last.name}', traceback.format_exc())
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return None


def died(code):
    """The verdict on a case whose process ended by itself or was stopped."""
    if code == -signal.SIGKILL:
        return Failed('hang', 'no result, not even to a signal')
    try:
        name = signal.Signals(-code).name
    except ValueError:
        name = f'exit {code}'
    return Failed(f'crash {name}', f'the process of this case ended by {name}')


def isolated(fn, choices, seconds):
    """Run one case in a process of its own: (verdict, choices used, text)."""
    out, into = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(out)
            g = Gen(choices=choices)
            r = run_case(fn, g, seconds)
            r = (r.signature, r.message) if isinstance(r, Failed) else r
            with os.fdopen(into, 'wb') as f:
                pickle.dump((r, g.choices, g.text), f)
        finally:
            os._exit(0)
    os.close(into)
    end, data = time.time() + seconds + 5, b''
    with os.fdopen(out, 'rb') as f:
        while True:
            ready, _, _ = select.select([f], [], [], max(0, end - time.time()))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                break
            part = os.read(f.fileno(), 1 << 16)
            if not part:
                break
            data += part
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    try:
        r, used, text = pickle.loads(data)
    except Exception:
        return died(code), choices, ''
    return (Failed(*r) if isinstance(r, tuple) else r), used, text


def shrink(fn, choices, signature, budget=60):
    end = time.time() + budget

    def fails(c):
        r, used, _ = isolated(fn, c, 5)
        return used if isinstance(r, Failed) and r.signature == signature else None

    best, progress = choices, True
    while progress and time.time() < end:
        progress = False
        for width in (32, 8, 4, 2, 1):
            i = 0
            while i < len(best) and time.time() < end:
                c = fails(best[:i] + best[i + width:])
                if c is not None and (len(c), c) < (len(best), best):
                    best, progress = c, True
                else:
                    i += width
        for i in range(len(best)):
            while i < len(best) and best[i] > 0 and time.time() < end:
                for y in (0, best[i] // 2, best[i] - 1):
                    c = fails(best[:i] + [y] + best[i + 1:])
                    if c is not None and (len(c), c) < (len(best), best):
                        best, progress = c, True
                        break
                else:
                    break
    return best


KNOWN = set()


def worker(fn, law, seed, start, stop, step, at):
    out = {'n': 0, 'seen': set(), 'samples': [], 'failures': {}}
    for i in range(start, stop, step):
        at.value = i
        if Gen.tape is not None:
            Gen.tape[0] = 0
        key = int.from_bytes(hashlib.sha256(f'{seed}/{law}/{i}'.encode()).digest()[:8], 'little')
        g = Gen(rng=random.Random(key), size=2 + i % 40)
        r = run_case(fn, g)
        if r == 'discard':
            continue
        out['n'] += 1
        if g.is_nontrivial:
            h = hashlib.sha256(g.text.encode()).digest()[:8]
            if h not in out['seen']:
                out['seen'].add(h)
                if len(out['samples']) < 2:
                    out['samples'].append(f'law {law}:\n{g.text}')
        if isinstance(r, Failed) and r.signature not in out['failures']:
            out['failures'][r.signature] = (i, g.choices)
            if sum(f'{law}/{s}'.replace(' ', '_') not in KNOWN for s in out['failures']) >= 3:
                break
    return out


def process(fn, law, seed, k, n, jobs, at, tape, into):
    Gen.tape = tape
    cores = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {cores[k % len(cores)], cores[(k + 1) % len(cores)]})
    faulthandler.disable()
    into.send(worker(fn, law, seed, k, n, jobs, at))
    into.close()


def run_law(fn, law, seed, n, jobs):
    """The results of all workers; a worker that dies or hangs is a failure of its case."""
    ctx = multiprocessing.get_context('fork')
    running, results = [], []
    for k in range(jobs):
        at, tape = ctx.RawValue('l', -1), ctx.RawArray('l', 1 << 14)
        out, into = ctx.Pipe(False)
        p = ctx.Process(target=process, args=(fn, law, seed, k, n, jobs, at, tape, into))
        p.start()
        into.close()
        running.append([p, out, at, tape, -2, time.time(), k])
    while running:
        for x in list(running):
            p, out, at, tape, last, since, k = x
            if at.value != last:
                x[4], x[5] = at.value, time.time()
            elif time.time() - since > 60:
                p.kill()
            if not out.poll(0.02):
                continue
            try:
                results.append((k, out.recv()))
                p.join()
            except EOFError:
                p.join()
                e = died(p.exitcode)
                results.append((k, {'n': 1, 'seen': set(), 'samples': [],
                                    'failures': {e.signature: (at.value, list(tape[1:1 + tape[0]]))}}))
            running.remove(x)
    return [r for _, r in sorted(results, key=lambda x: x[0])]


def main(prop, rule, laws):
    p = argparse.ArgumentParser()
    p.add_argument('--out', default='.')
    p.add_argument('--evidence')
    p.add_argument('--replay')
    p.add_argument('--known', action='append', default=[])
    a = p.parse_args()
    KNOWN.update(a.known)
    tier, seed = os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1'))
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        g = Gen(choices=r['choices'])
        e = run_case(laws[r['law']][2], g)
        print(g.text)
        if isinstance(e, Failed):
            print(f'FAILED {e.signature}: {e.message}')
            print(f'VIOLATION property={prop} replay={a.replay}')
            return 1
        print('holds')
        return 0
    t0 = time.time()
    jobs = os.cpu_count() or 4
    total, distinct, samples, violations = 0, 0, [], 0
    for law, (quick, thorough, fn) in laws.items():
        n = thorough if tier == 'thorough' else quick
        results = run_law(fn, law, seed, n, jobs)
        seen, failures = set(), {}
        for r in results:
            total += r['n']
            seen |= r['seen']
            for s, f in r['failures'].items():
                if s not in failures or f[0] < failures[s][0]:
                    failures[s] = f
        distinct += len(seen)
        samples += results[0]['samples']
        for s, (_, choices) in sorted(failures.items()):
            known = f'{law}/{s}'.replace(' ', '_')
            if known in a.known:
                print(f'KNOWN-FINDING: property={prop} {known}')
                continue
            violations += 1
            best = choices if 'VERIF_NOSHRINK' in os.environ else shrink(fn, choices, s)
            e, best, text = isolated(fn, best, 20)
            path = os.path.join(a.out, f"{prop}-{law}-{violations}.replay")
            with open(path, 'w') as f:
                json.dump({'property': prop, 'law': law, 'signature': s, 'seed': seed, 'case': text,
                           'message': getattr(e, 'message', ''), 'choices': best}, f, indent=1)
            print(f'FAILED law {law} [{s}]: {getattr(e, "message", "")}\n{text}')
            print(f'VIOLATION property={prop} replay={path}')
    wall = time.time() - t0
    if a.evidence:
        with open(a.evidence, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
                       'coverage': {'evaluations': total, 'distinct_nontrivial': distinct, 'rule': rule,
                                    'samples': samples},
                       'assumptions': [], 'wall_s': round(wall, 2), 'violations': violations}, f, indent=1)
    print(f'{prop}: {total} cases, {distinct} distinct non-trivial, {violations} violation(s), {wall:.1f} s')
    sys.stdout.flush()
    sys.exit(1 if violations else 0)
