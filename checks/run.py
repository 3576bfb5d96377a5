"""Entry point: run.py <property id>."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
sys.path.insert(0, HERE)
import vf  # noqa: E402

DOMAIN = {
    'K': 'dom_kinematic',
    'Q': 'dom_constants',
    'G': 'dom_sirepo',
    'D': 'dom_sdds',
    'W': 'dom_switchyard',
    'B': 'dom_beamline',
    'L': 'dom_lte',
    'T': 'dom_trace3d',
    'J': 'dom_sirepo',
    'X': 'dom_sirepo',
    'N': 'dom_nonlinear',
    'A': 'dom_particles',
    'U': 'dom_bunch',
    'M': 'dom_sampling',
    'P': 'dom_phases',
    'C': 'dom_decoherence',
    'V': 'dom_plot',
    'E': 'dom_chain',
}


def main():
    prop = sys.argv[1]
    ck = vf.Check(prop)
    try:
        vf.import_repo()
        mod = importlib.import_module(DOMAIN[prop[0]])
        try:
            getattr(mod, prop)(ck)
        except vf.Unobservable as e:
            print(e)
            ck.fail('unobservable', str(e))
            ck.lacking = 0
        except (vf.Machinery, MemoryError, OSError):
            raise
        except Exception as e:
            # the code under test failing outside the drivers' own calls
            if not any(f.filename.startswith(vf.REPO + os.sep) for f in traceback.extract_tb(e.__traceback__)):
                raise
            traceback.print_exc()
            ck.fail('unobservable', traceback.format_exc())
            ck.lacking = 0
        sys.exit(ck.finish())
    except vf.Machinery as e:
        print('MACHINERY ERROR property=%s: %s' % (prop, e))
        sys.exit(2)


if __name__ == '__main__':
    main()
