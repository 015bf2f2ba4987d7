"""Which lines of the target files one worker executed (sys.monitoring)."""
import os
import sys


class Cover:
    TOOL = 3

    def __init__(self, targets):
        self.targets = {os.path.realpath(t): set() for t in targets}

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'rt-cover')
        cache = {}

        def line(code, lineno):
            fn = code.co_filename
            s = cache.get(fn, 0)
            if s == 0:
                s = cache[fn] = self.targets.get(os.path.realpath(fn))
            if s is not None:
                s.add(lineno)
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def stop(self):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)

    def result(self):
        out = {}
        for path, lines in self.targets.items():
            total = set()
            try:
                code = compile(open(path).read(), path, 'exec')
            except Exception:
                continue
            stack = [code]
            top = True
            while stack:
                c = stack.pop()
                for k in c.co_consts:
                    if hasattr(k, 'co_code'):
                        stack.append(k)
                # module- and class-level lines run on import, before us
                if c.co_flags & 0x2:
                    total.update(l for _, _, l in c.co_lines() if l
                                 and l != c.co_firstlineno)
            out[os.path.basename(path)] = '%d/%d' % (
                len(lines & total), len(total))
        return out
