#!/opt/venv/bin/python
"""Runs harnesses against the real package: one JSON request per line on stdin, one reply per line on the saved stdout.
Also: replay_server.py FILE.json replays one recorded violation (exit 1 when it reproduces)."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('QMIX_REPO', '/repo')
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.path[0:0] = [REPO, HERE]


def handle(req):
    import symx.concrete as cc
    h = importlib.import_module('checks.' + req['prop'].lower())
    return cc.run_point(h, req['params'], req['values'], req['choices'], req['seed'])


def main():
    if len(sys.argv) > 1:
        req = json.load(open(sys.argv[1]))
        r = handle(req)
        print(json.dumps(dict(property=req['prop'], case=req['params'], values=req['values'], choices=req['choices'],
                              status=r['status'], fails=r['fails']), indent=1, default=str))
        return 1 if r['fails'] else 0
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    import warnings
    warnings.simplefilter('ignore')
    try:
        import qmix    # noqa: the real package
        where = os.path.dirname(os.path.dirname(os.path.abspath(qmix.__file__)))
        out.write(json.dumps(dict(ready=True, repo=where)) + '\n')
    except Exception as e:
        out.write(json.dumps(dict(ready=False, error='%s: %s' % (type(e).__name__, e))) + '\n')
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            r = handle(req)
        except Exception as e:
            r = dict(status='error', error='%s: %s' % (type(e).__name__, e), fails=[], observed={}, values={})
        out.write(json.dumps(r, default=str) + '\n')
        out.flush()


if __name__ == '__main__':
    sys.exit(main())
