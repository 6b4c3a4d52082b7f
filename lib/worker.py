"""Child process: imports yade from /repo/_build/inst and executes cases of one property module.

Reads one JSON case per line on one pipe, writes one JSON answer per line on another.  Whatever yade prints goes elsewhere.
"""
import sys, os, json, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'props'))


def main():
    modname = sys.argv[1]
    fin = os.fdopen(int(sys.argv[2]), 'r')
    fout = os.fdopen(int(sys.argv[3]), 'w')
    import yade
    assert yade.__file__.startswith('/repo/_build/inst/'), yade.__file__
    import yade.boot, yade.wrapper, yade.utils
    import vp_iter
    vp_iter.patch()
    import ylib
    mod = __import__(modname)
    fout.write('"ready"\n')
    fout.flush()
    for line in fin:
        case = json.loads(line)
        try:
            r = mod.run(case) or {}
            r['ok'] = True
        except ylib.Fail as e:
            r = {'ok': False, 'msg': str(e)}
        except ylib.Reject as e:
            r = {'ok': True, 'reject': True, 'msg': str(e)}
        except Exception as e:
            r = {'ok': False, 'msg': 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])}
        fout.write(json.dumps(r, default=str) + '\n')
        fout.flush()
    os._exit(0)


main()
