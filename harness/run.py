"""run.py <property id>: decide one property of /repo's current tree."""
import os, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

HERE = os.path.dirname(os.path.abspath(__file__))


def crash_site(e):
    """(file, function) of the code under test when it is the code that raised, else None."""
    site = None
    for f, _ in traceback.walk_tb(e.__traceback__):
        name = os.path.realpath(f.f_code.co_filename)
        if name.startswith(HERE + os.sep):
            site = None
        elif under_test(name):
            site = (os.path.basename(name), f.f_code.co_name)
    return site


def under_test(name):
    return os.path.realpath(name).startswith(os.path.realpath(os.path.join(common.REPO, "most_queue")) + os.sep)


def watchdog(pid, limit, main_thread=threading.main_thread().ident):
    """A call of the code under test that has not returned for a very long time is a violation, wherever it was made."""
    call, since = None, 0.0
    while True:
        time.sleep(5)
        f, top = sys._current_frames().get(main_thread), None
        while f is not None:
            if under_test(f.f_code.co_filename):
                top = f
            f = f.f_back
        if top is None or top is not call:
            call, since = top, time.time()
        elif time.time() - since > limit:
            rep = common.Report.last or common.Report(pid)
            rep.violate("hang:%s.%s" % (os.path.basename(call.f_code.co_filename), call.f_code.co_name),
                        "%s did not return within %d s on input the check prepared for it" % (call.f_code.co_name, limit), {})
            rep.finish()
            sys.stdout.flush()
            os._exit(1)


def main():
    pid = sys.argv[1]
    threading.Thread(target=watchdog, args=(pid, 250 if common.TIER == "quick" else 1500), daemon=True).start()
    try:
        import importlib
        import registry
        mod, = [m for m, ids in registry.MODULES.items() if pid in ids]
        rc = importlib.import_module(mod).main(pid)
    except Exception as e:
        site = crash_site(e)
        rep = common.Report.last or common.Report(pid)
        if isinstance(e, common.CheckError):
            print("CHECK ERROR property=%s: %s" % (pid, e))
        else:
            traceback.print_exc()
        rc = 2
        if site:
            rep.violate("crash:%s.%s.%s" % (site[0], site[1], type(e).__name__),
                        "the code under test raised %s: %s in %s (%s) on input the check prepared for it"
                        % (type(e).__name__, e, site[1], site[0]), {"traceback": traceback.format_exc()})
        if rep.violations:          # what was found stands even when the rest could not be decided
            rc = rep.finish() or rc
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
