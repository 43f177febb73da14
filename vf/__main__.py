import sys

from . import engine

if __name__ == '__main__':
    mode, args = sys.argv[1], sys.argv[2:]
    if mode == 'worker':
        sys.exit(engine.worker_main(args))
    if mode == 'replay-one':
        sys.exit(engine.replay_main(args))
    sys.exit(2)
