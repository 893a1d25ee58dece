"""C34: log statistics are exact and every sink shows the same text."""
import io
import logging
import os
import shutil
import sys
import tempfile

from sx.common import harness

LEVELS = [10, 20, 30, 40, 50, 25]
IDS = [None, "", "x", "(id: x)", "a longer id", 0]  # 0 is an id, too
FORMATS = [None, "%(message)s%(log_id)s", "[%(log_id)s|%(levelname)s] %(message)s"]


class World:
    """the sinks, and what they have to show"""

    def __init__(self):
        from toffee import logger

        self.m = logger
        self.dir = tempfile.mkdtemp(prefix="sx-c34-")
        self.console = io.StringIO()
        self.old = logger.screen_handler.setStream(self.console)
        self.sev = dict(logger.stats_handler.serverity_stats)
        self.ids = dict(logger.stats_handler.id_stats)

    def close(self):
        self.m.setup_logging(log_level=1000, console_display=False)
        self.m.screen_handler.setStream(self.old if self.old is not None else sys.stderr)
        shutil.rmtree(self.dir)

    def path(self, n):
        return os.path.join(self.dir, n)

    def setup(self, level, console, file, fmt):
        kw = {} if fmt is None else {"format": fmt}
        self.m.setup_logging(log_level=level, console_display=console, log_file=self.path(file) if file else None, **kw)

    def read(self, file):
        if not os.path.exists(self.path(file)):
            return ""
        with open(self.path(file)) as f:
            return f.read()


def emit(m, how, level, msg, ident):
    ex = {} if ident is None else {"extra": {"log_id": ident}}
    if how == 0:
        m.log(level, "%s", msg, **ex)
    elif how == 1:
        m.get_logger().log(level, msg, **ex)
    else:
        {10: m.debug, 20: m.info, 30: m.warning, 40: m.error, 50: m.critical}[level](msg, **ex)


def some(i):
    return i is not None and i != ""


def counted(ctx, w, want, what):
    """want: list of (level, id) counted since the world began"""
    st = w.m.stats_handler
    sev = {k: v - w.sev.get(k, 0) for k, v in st.serverity_stats.items() if v != w.sev.get(k, 0)}
    ids = {k: v - w.ids.get(k, 0) for k, v in st.id_stats.items() if v != w.ids.get(k, 0)}
    exp = {}
    for l, _ in want:
        exp[logging.getLevelName(l)] = exp.get(logging.getLevelName(l), 0) + 1
    ctx.check(sev == exp, f"{what}: the counts by severity are wrong")
    for i in {i for _, i in want if some(i)}:
        ctx.check(ids.get(i, 0) == sum(1 for _, j in want if j == i), f"{what}: the count of an id is wrong")
    rest = {k: v for k, v in ids.items() if k not in {i for _, i in want if some(i)}}
    ctx.check(sum(rest.values()) == sum(1 for _, i in want if not some(i)), f"{what}: the count of the records without an id is wrong")


def shown(ctx, text, want, what):
    """want: (level, id, message) in order"""
    lines = text.split("\n")
    ctx.check(lines[-1] == "" and len(lines) == len(want) + 1, f"{what}: not one line for each record")
    for ln, (_, i, msg) in zip(lines, want):
        ctx.check(ln.count(msg) == 1, f"{what}: a record's message is not shown exactly once")
        if some(i):
            ctx.check(ln.count(f"(id: {i})") == 1 and ln.count("id:") == f"(id: {i})".count("id:"), f"{what}: a record's id is not shown exactly once")
        else:
            ctx.check("id:" not in ln and "None" not in ln, f"{what}: an id is shown for a record without one")


@harness("C34", params=[{"n": 2}], thorough=[{"n": 3}], labels=("shown", "hidden"),
         fallback=[{"n": 1}])
def records(ctx, n):
    """n records of any of six levels (one of them without a name), five kinds of id and three ways of logging; six configured
    levels; sinks: console, file, and one added by the user with the same formatter, and one above the logger"""
    w = World()
    lg = w.m.get_logger()
    root = logging.getLogger()
    up = logging.StreamHandler(io.StringIO())
    prop = lg.propagate
    try:
        level = LEVELS[ctx.choose("level", len(LEVELS))]
        sinks = ctx.choose("sinks", 4)
        w.setup(level, sinks in (0, 1), "a.log" if sinks != 1 else None, FORMATS[sinks % 3])
        own = logging.StreamHandler(io.StringIO())
        if sinks >= 2:
            own.setFormatter(w.m.ToffeeFormatter(w.m.default_format))
            lg.addHandler(own)
            up.setFormatter(w.m.ToffeeFormatter("%(message)s%(log_id)s"))
            root.addHandler(up)
            lg.propagate = True
        want = []
        for k in range(n):
            l = LEVELS[ctx.choose(f"l{k}", len(LEVELS))]
            i = IDS[ctx.choose(f"i{k}", len(IDS) if k == 0 else 3)]
            how = ctx.choose(f"how{k}", 3 if l != 25 else 2) if k == 0 else 1
            emit(w.m, how, l, f"<msg{k}>", i)
            if l >= level:
                want.append((l, i, f"<msg{k}>"))
                ctx.note("shown")
            else:
                ctx.note("hidden")
            counted(ctx, w, [x[:2] for x in want], "after a record")
        for h in lg.handlers:
            h.flush()
        con, fil = w.console.getvalue(), w.read("a.log")
        if sinks in (0, 1):
            shown(ctx, con, want, "console")
        else:
            ctx.check(con == "", "the console shows records although it is off")
        if sinks != 1:
            shown(ctx, fil, want, "file")
        if sinks == 0:
            ctx.check(con == fil, "the console and the file show different texts")
        if sinks >= 2:
            shown(ctx, own.stream.getvalue(), want, "another sink")
            shown(ctx, up.stream.getvalue(), want, "a sink of the root logger")
    finally:
        root.removeHandler(up)
        lg.propagate = prop
        w.close()


@harness("C34", params=[{"n": 2}], thorough=[{"n": 3}], labels=("end",),
         fallback=[{"n": 1}])
def again(ctx, n):
    """n configurations one after the other (console or not, one of two files or none, three levels), each
    followed by a record of a level that is enabled or not; only the sinks of the latest one show it"""
    w = World()
    try:
        cons, files, stat = [], {"a.log": [], "b.log": []}, []
        for k in range(n):
            level = [10, 30, 50][ctx.choose(f"level{k}", 3)]
            console = ctx.choose(f"console{k}", 2)
            file = [None, "a.log", "b.log"][ctx.choose(f"file{k}", 3)]
            w.setup(level, bool(console), file, FORMATS[k % 3])
            if file:
                files[file] = []  # begun anew
            l = [20, 30, 40][ctx.choose(f"l{k}", 3)]
            i = ["", "x"][k % 2]
            emit(w.m, 1, l, f"<msg{k}>", i)
            if l >= level:
                stat.append((l, i))
                if console:
                    cons.append((l, i, f"<msg{k}>"))
                if file:
                    files[file].append((l, i, f"<msg{k}>"))
        for h in w.m.get_logger().handlers:
            h.flush()
        counted(ctx, w, stat, "in the end")
        shown(ctx, w.console.getvalue(), cons, "console")
        for f, want in files.items():
            shown(ctx, w.read(f), want, "file")
        ctx.note("end")
    finally:
        w.close()


@harness("C34", params=[{}], labels=("end",))
def layouts(ctx):
    """the text of each sink follows the configured format, whatever the level and id"""
    w = World()
    try:
        k = ctx.choose("format", 3)
        l = LEVELS[ctx.choose("l", len(LEVELS))]
        i = IDS[ctx.choose("i", len(IDS))]
        w.setup(10, True, "a.log", FORMATS[k])
        emit(w.m, 1, l, "<msg>", i)
        for h in w.m.get_logger().handlers:
            h.flush()
        tag = f"(id: {i})" if some(i) else ""
        name = logging.getLevelName(l)
        for text in (w.console.getvalue(), w.read("a.log")):
            exp = [f"{tag}:\t<msg>", f"<msg>{tag}", f"[{tag}|{name}] <msg>"][k]
            ctx.check(text.count(exp) == 1, "the text does not follow the configured format")
            if k == 0:
                ctx.check(f"TOFFEE_{name} @c34.py:" in text, "the default format lacks the level or the place")
        ctx.note("end")
    finally:
        w.close()


@harness("C34", params=[{"n": 3}], labels=("end",))
def summary(ctx, n):
    """the summary shows the exact counts by severity, after n records of any level; it is a record itself"""
    w = World()
    try:
        level = [10, 20, 30][ctx.choose("level", 3)]
        w.m.stats_handler.serverity_stats.clear()
        w.sev = {}
        w.setup(level, True, None, None)
        want = []
        for k in range(n):
            l = LEVELS[ctx.choose(f"l{k}", 5)]
            emit(w.m, 2, l, f"<msg{k}>", None)
            if l >= level:
                want.append(l)
        before = len(w.console.getvalue())
        w.m.summary()
        text = w.console.getvalue()[before:]
        if level > 20:
            ctx.check(text == "", "a summary is shown although its level is disabled")
        else:
            for l in set(want):
                ctx.check(f"{logging.getLevelName(l)}:\t{want.count(l)}\n" in text, "the summary shows another count")
            for l in set(LEVELS[:5]) - set(want):
                ctx.check(f"\n{logging.getLevelName(l)}:" not in text or f"{logging.getLevelName(l)}:\t0\n" in text, "the summary counts a severity without records")
        counted(ctx, w, [(l, None) for l in want] + ([(20, None)] if level <= 20 else []), "after the summary")
        ctx.note("end")
    finally:
        w.close()
