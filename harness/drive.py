"""usage: drive.py DRIVER SEED TIER OUT PROP SHARD NSHARDS [SPEC_CASES]   (run by check.py)
Ends with 3 if the harness itself failed."""
import faulthandler, importlib, json, os, sys, traceback
HARN = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HARN)
sys.path.insert(0, REPO)
faulthandler.enable()
import common

if '/vp_' not in os.getcwd():
    # run by hand: drivers create and remove files where they are
    import tempfile
    os.chdir(tempfile.mkdtemp(prefix='vp_hand_'))

mod, seed, tier, path, prop, shard, nshards = sys.argv[1:8]
common.CTX.update(seed=int(seed), tier=tier, prop=prop, shard=int(shard), nshards=int(nshards))
m = importlib.import_module(mod)
out = common.Out(path)
try:
    if len(sys.argv) > 8:
        lines = open(sys.argv[8]).read().splitlines()
        m.from_spec(out, [json.loads(json.loads(l)) for l in lines[int(shard)::int(nshards)]])
    else:
        m.record(out)
except common.Enough:
    out.count('stopped_at_time_limit')
except BaseException:
    if common.HUNG:
        out.write()
        sys.exit(0)
    tb = traceback.format_exc()
    sys.stderr.write(tb)
    last = traceback.extract_tb(sys.exc_info()[2])[-1].filename
    # an exception that escapes from the code under test is the code's; one raised
    # inside the harness is the harness's
    sys.exit(3 if last.startswith(HARN) else 4)
out.write()
