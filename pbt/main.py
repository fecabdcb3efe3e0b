import os
import sys
import pathlib

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.path[:] = [p for p in sys.path if p != str(pathlib.Path(__file__).resolve().parent)]

from pbt import boot, engine  # noqa


def main(argv):
    if argv[0] == '--shard':
        boot.activate(os.environ['PBT_FARM'])
        boot.check_loaded(os.environ['PBT_FARM'])
        return engine.shard_main(argv[1], int(argv[2]), argv[3])
    pid = argv[0]
    if len(argv) > 2 and argv[1] == '--replay':
        return engine.replay(pid, argv[2])
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return engine.run_property(pid, tier if tier in ('quick', 'thorough') else 'quick', seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
