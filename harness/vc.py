"""The Python side of vc.hpp: a bounded space of cases, split over processes, replayable one by one."""
import json, os, signal, sys, traceback


class Failure(Exception):
    pass


class Explorer:
    def __init__(self, argv):
        self.shard, self.nshard, self.start, self.only, self.thorough, self.list = 0, 1, 0, None, False, False
        self.out, self.progress = None, None
        i = 1
        while i < len(argv):
            a = argv[i]
            if a == "--list":
                self.list = True
            else:
                i += 1
                v = argv[i]
                if a == "--shard":
                    self.shard, self.nshard = [int(x) for x in v.split("/")]
                elif a == "--from":
                    self.start = int(v)
                elif a == "--only":
                    self.only = v
                elif a == "--tier":
                    self.thorough = v == "thorough"
                elif a == "--out":
                    self.out = os.path.abspath(v)
                elif a == "--progress":
                    self.progress = os.path.abspath(v)
            i += 1
        self.index = self.executed = self.checks = self.states = self.transitions = self.nviol = 0
        self.distinct, self.samples, self.cur = set(), [], ""
        self.seconds = 240

    def emit(self, d):
        if self.out:
            with open(self.out, "a") as f:
                f.write(json.dumps(d) + "\n")
        else:
            sys.stderr.write(json.dumps(d) + "\n")

    def run(self, cid, f, *a):
        k = self.index
        self.index += 1
        if self.list:
            sys.stderr.write(cid + "\n")
            return
        if self.only is not None:
            if cid != self.only:
                return
        elif k < self.start or k % self.nshard != self.shard:
            return
        if self.nviol >= 5:
            return
        self.cur = cid
        self.executed += 1
        if self.progress:
            with open(self.progress, "w") as g:
                g.write("%d %s\n" % (k, cid))
        if len(self.samples) < 6 and (k % 97 == 0 or self.executed < 3):
            self.samples.append(cid)
        signal.alarm(self.seconds)
        try:
            f(*a)
        except Failure as e:
            self.report(str(e))
        except (Exception, SystemExit) as e:
            self.report("unexpected %s: %s" % (type(e).__name__, " | ".join(traceback.format_exc().strip().split("\n")[-6:])[-700:]))
        signal.alarm(0)
        self.states += 1

    def report(self, msg):
        self.nviol += 1
        self.emit({"viol": 1, "case": self.cur, "msg": msg})

    def finish(self):
        self.emit({"done": 1, "total": self.index, "executed": self.executed, "checks": self.checks, "states": self.states,
                   "transitions": self.transitions, "distinct": len(self.distinct), "samples": self.samples})

    def check(self, ok, msg):
        self.checks += 1
        if not ok:
            raise Failure(msg)
