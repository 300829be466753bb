"""driver.py <module>: runs the tests of a module one by one and records what became of each."""
import gc, importlib, sys, unittest
import ecss_smp


class Result(unittest.TestResult):
    outcome = None

    def startTest(self, test):
        super().startTest(test)
        self.outcome = []
        ecss_smp.say("test", test.id())

    def stopTest(self, test):
        ecss_smp.say("outcome", " ".join(self.outcome) or "none")
        super().stopTest(test)

    def _say(self, what, err=None):
        self.outcome.append(what if err is None else "%s(%s:%s)" % (what, err[0].__name__, str(err[1]).replace(" ", "_").replace("\n", "_")[:120]))

    def addSuccess(self, test):
        self._say("ok")

    def addError(self, test, err):
        self._say("error", err)

    def addFailure(self, test, err):
        self._say("failure", err)

    def addSubTest(self, test, subtest, err):
        if err is not None:
            self._say("sub")

    def addSkip(self, test, reason):
        self._say("skip(%s)" % reason)


suite = unittest.defaultTestLoader.loadTestsFromModule(importlib.import_module(sys.argv[1]))
for case in suite:
    for test in case:
        result = Result()
        result.failfast = False
        test.run(result)
        gc.collect()
        ecss_smp.say("left", *ecss_smp.alive())
ecss_smp.say("end")
