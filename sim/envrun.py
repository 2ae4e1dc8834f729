"""Answers jobs in an interpreter of its own: started by props/c20.py with a drawn
environment.  Reads a pickle from its standard input, writes one to its standard output."""
import os
import pickle
import resource
import sys


def main():
    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
    out = os.fdopen(os.dup(1), 'wb')
    todo = pickle.load(os.fdopen(os.dup(0), 'rb'))
    e = todo['env']
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    os.dup2(null, 2)
    sys.path[0:1] = [todo['verif'], todo['repo']]
    if e['streams'] == 'none':
        sys.stdin = sys.stdout = sys.stderr = None
    import gc
    if e['gc'] == 'off':
        gc.disable()
    elif e['gc'] == 'often':
        gc.set_threshold(7, 2, 2)
    junk = [bytes(n % 700 + 1) for n in range(e['junk'])]
    junk = junk[::2] if e['junk'] % 2 else junk
    import logging
    if e['log'] == 'debug':
        logging.getLogger().setLevel(logging.DEBUG)
    elif e['log'] == 'off':
        logging.disable(logging.CRITICAL)
    elif e['log'] == 'warnings':
        logging.captureWarnings(True)
    import random
    random.seed(e['random'])
    from sim import answer
    os.chdir(todo['dir'])
    if e['recursion']:
        sys.setrecursionlimit(e['recursion'])
    res = []

    def work():
        kept = []
        for n, job in enumerate(todo['jobs']):
            d = os.path.join(todo['dir'], 'out%d' % n)
            os.mkdir(d)
            a = answer.answer(job, job['path'], d)
            res.append(a)
            if e['keep']:
                kept.append(a)
            if e['gc'] == 'between':
                gc.collect()
            junk.append(bytes(n * 37 + 1))

    if e['thread']:
        import threading
        threading.stack_size(64 << 20)
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    with out:
        pickle.dump(res, out)


main()
