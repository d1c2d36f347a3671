""" python -m mc.run C01 [quick|thorough]   |   python -m mc.run replay FILE """
import os
import sys
import traceback

def _main(argv):
    if argv[0] == 'C13' or argv[0] == 'replay' and 'C13' in os.path.basename(argv[1]):
        os.environ['MC_AEAD'] = '1'
    if argv[0] == 'replay':
        from . import engine
        return engine.replay(argv[1])
    if argv[0] == 'setup':      # nothing to build, only check that everything needed is there
        import cryptography
        print('python', sys.version.split()[0], 'cryptography', cryptography.__version__)
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        from . import env, engine  # noqa: F401
        return engine.main(prop, tier)
    except Exception:
        # the code under test cannot even be imported or set up
        traceback.print_exc()
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        os.makedirs(os.path.join(here, 'replays'), exist_ok=True)
        path = os.path.join(here, 'replays', f'{prop}-setup.txt')
        with open(path, 'w') as file:
            file.write(traceback.format_exc())
        print(f'VIOLATION property={prop} replay={path}')
        return 1

if __name__ == '__main__':
    rc = _main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
