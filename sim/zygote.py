"""The simulated process.  Loaded once (numpy, the igakit built from the tree,
the simulator), then forked for every plan: a run starts from the same process
image whatever ran before it, which is what makes replay exact.

Protocol: one JSON request per line on fd 3, one JSON answer per line on fd 4.
"""
import sys, os, json, signal, struct, time, traceback, select, resource

CFG = json.loads(os.environ['IGASIM_CFG'])
sys.path[:] = [CFG['native'], CFG['pkg'], CFG['simdir']] + [p for p in sys.path if p] + [CFG['site']]
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
import gc


def child(req, wfd):
    import core
    os.setpgid(0, 0)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.pthread_sigmask(signal.SIG_UNBLOCK, {signal.SIGINT})
    try:
        out = core.execute(req)
    except BaseException as e:
        out = {'error': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]}
    data = json.dumps(out).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    os._exit(0)


def serve():
    rd = os.fdopen(3, 'r')
    import core
    core.load(CFG)
    gc.collect()
    gc.freeze()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.write(4, b'{"ready": 1}\n')
    for line in rd:
        req = json.loads(line)
        r, w = os.pipe()
        t0 = time.monotonic()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                child(req, w)
            finally:
                os._exit(99)
        os.close(w)
        buf, limit, killed = [], req.get('timeout', 120), False
        while True:
            left = limit - (time.monotonic() - t0)
            if left <= 0:
                for f in (os.killpg, os.kill):
                    try:
                        f(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                killed = True
                break
            ok, _, _ = select.select([r], [], [], left)
            if ok:
                b = os.read(r, 1 << 16)
                if not b:
                    break
                buf.append(b)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        raw = b''.join(buf)
        ans = None
        if raw and not killed:
            try:
                ans = json.loads(raw)
            except ValueError:
                ans = None
        if ans is None:
            ans = {'died': {'signal': os.WTERMSIG(st) if os.WIFSIGNALED(st) else None,
                            'exit': os.WEXITSTATUS(st) if os.WIFEXITED(st) else None,
                            'timeout': killed, 'note': core.last_note()}}
        ans['wall'] = time.monotonic() - t0
        os.write(4, (json.dumps(ans) + '\n').encode())


if __name__ == '__main__':
    serve()
