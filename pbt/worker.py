"""Evaluates schemas in another process: one JSON request and one JSON answer per line."""
import json
import os
import pathlib
import subprocess
import sys

HERE = pathlib.Path(__file__).resolve()


class Worker:
    def __init__(self, hashseed):
        import jschon
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PBT_FARM=str(pathlib.Path(jschon.__file__).resolve().parent.parent))
        self.proc = subprocess.Popen([sys.executable, '-W', 'ignore', str(HERE)], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                                     encoding='ascii')

    def ask(self, request):
        self.proc.stdin.write(json.dumps(request) + '\n')
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise RuntimeError('the worker process died')
        return json.loads(line)


def main():
    sys.path.insert(0, str(HERE.parent.parent))
    sys.path[:] = [p for p in sys.path if p != str(HERE.parent)]
    from pbt import boot
    boot.activate(os.environ['PBT_FARM'])
    boot.check_loaded(os.environ['PBT_FARM'])
    from pbt.props import c24
    for line in sys.stdin:
        try:
            answer = {'ok': c24.answers(json.loads(line))}
        except Exception as e:      # noqa
            answer = {'error': f'{type(e).__name__}: {e}'}
        print(json.dumps(answer), flush=True)


if __name__ == '__main__':
    main()
