"""C15: the safety limiter stops the robot when it cannot see."""
from checks import safety_gen
NOTE = ("The limiter's state machine (data, timeout, watchdog, disable window, hold, prediction ticks) is model-checked over all bounded schedules with arbitrary predictions; "
        "the unmodified node is replayed in simulated time through random fault sequences and every output is decided by the same state machine.")
CONSTS = {"Period": "1", "Timeout": "1", "DisableFor": "1", "Hold": "1", "Watchdog": "1", "MaxT": "1", "One": "10000", "Predictions": "{0}", "Commands": "{0}"}
PROPS = "SPECIFICATION Spec\nPROPERTIES BlindStops NeverFaster Holds\nINVARIANTS WatchdogLatched NeverWithoutData\n"


def mc(c, style):
    for wd, to, dis, hold, per in c.pick([(3, 2, 2, 0, 2), (0, 3, 1, 3, 1)], [(3, 2, 2, 0, 2), (0, 3, 1, 3, 1), (4, 3, 2, 5, 2), (3, 1, 3, 4, 3), (5, 4, 1, 2, 2)]):
        c.mc("Limiter", PROPS, {"Period": str(per), "Timeout": str(to), "DisableFor": str(dis), "Hold": str(hold), "Watchdog": str(wd), "MaxT": c.pick("7", "11"), "One": "2",
                                "Predictions": "{0, 1, 2}", "Commands": "{0, 2}"}, name="Limiter watchdog %d timeout %d" % (wd, to), min_states=300, workers=8, timeout=1500)


def replay(c, style, quick, thorough):
    exe = c.node("safety_limiter", "safety_driver.cpp", "safety_limiter/src/safety_limiter.cpp", cfg=["safety_limiter/cfg/SafetyLimiter.cfg"])
    c.run_scripts(exe, [safety_gen.script(c.rng, style, 8) for _ in range(c.pick(quick, thorough))], "LimiterTrace", CONSTS, name="safety_limiter")


def run(c):
    mc(c, "stop")
    replay(c, "stop", 16, 200)
    c.assumptions.append("a timeout is noticed at the next prediction tick, within one control period; events do not coincide with timer expiries")
