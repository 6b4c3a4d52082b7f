"""Runs on every rank under mpirun: serves cases of C17. Rank 0 reads JSON lines from a fifo and writes answers to another."""
import sys, os, json, time, tempfile, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'props'))
import yade, yade.boot, yade.wrapper, yade.utils, vp_iter
vp_iter.patch()
from yade import *
from yade import utils
from yade.wrapper import *


# the string form of these two cannot be used with Python 3 (binary data in a str); same content through a file
def sceneToString(self):
    fd, fn = tempfile.mkstemp(suffix='.bin')
    os.close(fd)
    self.save(fn, True)
    with open(fn, 'rb') as f:
        d = f.read()
    os.unlink(fn)
    return d


def stringToScene(self, s, mark=''):
    fd, fn = tempfile.mkstemp(suffix='.bin')
    os.close(fd)
    with open(fn, 'wb') as f:
        f.write(s)
    self.load(fn, True)
    os.unlink(fn)


yade.wrapper.Omega.sceneToString = sceneToString
yade.wrapper.Omega.stringToScene = stringToScene
from yade import mpy as mp
mp.utils = utils
mp.YADE_TIMING = False
mp.mprint = lambda m: None
comm = mp.comm
rank = comm.Get_rank()
import c17_mpi

_TAG = 99
fin = open(sys.argv[1]) if rank == 0 else None
fout = open(sys.argv[2], 'w') if rank == 0 else None
parent = int(sys.argv[3])
while True:
    if rank == 0:
        line = fin.readline()
        if not line:
            break
        case = json.loads(line)
        for k in range(1, comm.Get_size()):
            comm.send(case, dest=k, tag=_TAG)
    else:
        while not comm.Iprobe(source=0, tag=_TAG):
            time.sleep(.0005)
            if not os.path.exists('/proc/%d' % parent):
                os._exit(0)
        case = comm.recv(source=0, tag=_TAG)
    try:
        r = c17_mpi.distributed(case, mp, O)
    except BaseException as e:
        r = {'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:]}
    if rank == 0:
        fout.write(json.dumps(r) + '\n')
        fout.flush()
os._exit(0)
