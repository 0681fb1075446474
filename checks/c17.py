"""C17: joystick override."""
import vlib
NOTE = ("Override rule checked exhaustively on a bounded timed model; the unmodified node runs on a deterministic ROS stand-in "
        "(simulated clock, topics) and its traces are validated by TLC; trusts TLC, the stand-in and the driver.")
P = "param /joystick_interrupt/"


def run(c):
    c.mc("JoyInterrupt", "SPECIFICATION Spec\nINVARIANTS Exclusive PassesOtherwise LackingNeverMoves NoAxesNoMotion HandsBack\n",
         {"MaxT": str(c.pick(4, 5)), "Timeout": "1", "MaxN": "2"}, name="JoyInterrupt bounded", min_states=50)
    rng = c.rng
    exe = c.node("joyint", "joyint_driver.cpp", "joystick_interrupt/src/joystick_interrupt.cpp")
    scripts = []
    for _ in range(c.pick(8, 60)):
        ls = []
        for _ in range(25):
            btn = rng.choice([0, 1, 3, 6, 6])
            timeout = rng.choice([0.5, 0.5, 0.25, 1.25])
            ls.append("begin %d" % rng.randint(0, 1))
            if btn != 6:
                ls.append(P + "interrupt_button %d" % btn)
            if timeout != 0.5:
                ls.append(P + "timeout %g" % timeout)
            high = rng.choice([-1, -1, 0, 2, 7])
            if high >= 0:
                ls.append(P + "high_speed_button %d" % high)
            for a in ("linear_axis", "angular_axis"):
                if rng.random() < 0.4:
                    ls.append(P + "%s %d" % (a, rng.randint(0, 4)))
            for a in ("linear_axis2", "angular_axis2", "linear_y_axis", "linear_y_axis2"):
                if rng.random() < 0.4:
                    ls.append(P + "%s %d" % (a, rng.randint(-1, 5)))
            ls.append(P + "linear_vel %g" % (rng.randint(0, 32) / 16.0))
            ls.append(P + "angular_vel %g" % (rng.randint(0, 32) / 16.0))
            ls.append(P + "linear_y_vel %g" % (rng.randint(0, 32) / 16.0))
            ls.append(P + "linear_high_speed_ratio %g" % (rng.randint(4, 40) / 16.0))
            ls.append(P + "angular_high_speed_ratio %g" % (rng.randint(4, 40) / 16.0))
            if rng.random() < 0.3:
                ls.append("clock 0.05")
            if rng.random() < 0.2:
                ls[-1:] = [ls[-1]] if "clock" in ls[-1] else [ls[-1], "realtime"]
            ls.append("start")
            def joy(pressed):
                nb = rng.choice([btn + 1, btn + 1, btn + 3, 9, btn, 0])
                b = [rng.choice([0, 1]) for _ in range(nb)]
                if btn < nb:
                    b[btn] = pressed
                a = [rng.randint(-4, 4) for _ in range(rng.choice([0, 1, 2, 3, 6, 6, 6]))]
                return "joy " + " ".join(map(str, b)) + " | " + " ".join(map(str, a))
            for _ in range(rng.randint(5, 50)):
                k = rng.random()
                if k < 0.4:
                    ls.append(joy(rng.choice([0, 1, 1])))
                elif k < 0.75:
                    ls.append("in " + " ".join(str(rng.randint(-30, 30)) for _ in range(6)))
                else:
                    ls.append("wait %.4f" % rng.choice([0.01, 0.1, timeout, timeout + 0.0001, timeout - 0.0001, timeout / 2, 2]))
        scripts.append(ls)
    c.run_scripts(exe, scripts, "JoyInterruptTrace", {"MaxT": "0", "Timeout": "0", "MaxN": "0"})
    c.assumptions.append("single-threaded callback execution as with ros::spin(); speeds and ratios are multiples of 1/16 so that the arithmetic is exact")
