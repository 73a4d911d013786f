import sys, os, importlib, traceback, signal, resource, time

class Watchdog(BaseException): pass      # the code under test cannot swallow it

def throughRepo(tb, repo):
    """Did the exception pass through the code under test?"""
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(repo + os.sep): return True
        tb = tb.tb_next
    return False

def main():
    pid = sys.argv[1]
    sys.setrecursionlimit(5000)
    from bosv import boot
    from bosv.ctx import Ctx, Inconclusive
    ctx = Ctx(pid)
    repo = os.path.realpath(ctx.repo)
    def onAlarm(sig, frame): raise Watchdog('wall-clock watchdog')
    signal.signal(signal.SIGALRM, onAlarm)
    signal.alarm(700 if ctx.tier == 'quick' else 5400)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))      # a loop that never ends stops with MemoryError
    ctx.inMain = True
    mod = importlib.import_module('checks.' + pid)
    inconclusive = None
    try:
        boot.boot()
        mod.run(ctx)
    except Inconclusive as e: inconclusive = str(e)
    except Watchdog as e:
        # the code under test has been busy with one case (or in all) for far longer than ever needed
        if throughRepo(e.__traceback__, repo): ctx.violation('does-not-finish', traceback.format_exc()[-1800:], {'traceback': traceback.format_exc()})
        else: inconclusive = str(e)
    except Exception as e:
        if throughRepo(e.__traceback__, repo):
            # raised by (or under) the code under test where the property calls for a result
            ctx.violation('raises:' + type(e).__name__, traceback.format_exc()[-1800:], {'traceback': traceback.format_exc()})
        else:
            traceback.print_exc(); inconclusive = f'harness error {type(e).__name__}: {e}'
    signal.alarm(0)
    rc = ctx.finish()
    if rc != 1 and inconclusive:
        print('INCONCLUSIVE', inconclusive); rc = 2
    sys.stdout.flush(); sys.stderr.flush()
    sys.exit(rc)

if __name__ == '__main__':
    main()
