"""C18: joystick multiplexer."""
import vlib
NOTE = ("Selection rule checked exhaustively on a bounded timed model; the unmodified node runs on a deterministic ROS stand-in "
        "(simulated clock, topics, timers) and its traces are validated by TLC; trusts TLC, the stand-in and the driver.")


def run(c):
    c.mc("JoyMux", "SPECIFICATION Spec\nINVARIANTS AltWhileHeld DefOtherwise\nPROPERTY NoComeback\n",
         {"MaxT": str(c.pick(6, 8)), "Timeout": "2", "Latency": "1"}, name="JoyMux bounded", min_states=50)
    rng = c.rng
    exe = c.node("joymux", "joymux_driver.cpp", "joystick_interrupt/src/joystick_mux.cpp")
    scripts = []
    for _ in range(c.pick(8, 60)):
        ls = []
        for _ in range(25):
            btn = rng.choice([0, 1, 2, 5, 5])
            timeout = rng.choice([0.5, 0.5, 0.3, 0.05, 1.25])
            ls += ["begin %d %d" % (rng.randint(0, 1), rng.randint(0, 1))]
            if btn != 5 or rng.random() < 0.5:
                ls.append("param /joystick_mux/interrupt_button %d" % btn)
            if timeout != 0.5 or rng.random() < 0.5:
                ls.append("param /joystick_mux/timeout %g" % timeout)
            if rng.random() < 0.2:
                ls.append("clock 0.25")
            if rng.random() < 0.2:
                ls.append("realtime")
            ls.append("start")
            n = 1
            for _ in range(rng.randint(5, 50)):
                k = rng.random()
                if k < 0.25:
                    nb = rng.choice([btn + 1, btn + 1, btn + 2, btn, 0])
                    ls.append("joy " + " ".join(str(rng.choice([0, 1])) for _ in range(nb)))
                elif k < 0.33:
                    ls.append("joy " + " ".join("1" if j == btn else "0" for j in range(btn + 1)))
                elif k < 0.75:
                    ls.append("in %d %d" % (rng.randint(0, 1), n))
                    n += 1
                else:
                    ls.append("wait %.4f" % rng.choice([0.0101, 0.05, 0.1, timeout, timeout + 0.0001, timeout - 0.0001, timeout + 0.11, timeout / 2, 0.2499, 2]))
        scripts.append(ls)
    c.run_scripts(exe, scripts, "JoyMuxTrace", {"MaxT": "0", "Timeout": "0", "Latency": "0"})
    c.assumptions.append("expiry of the joystick may be noticed up to 0.1 s after the timeout (the node polls at 10 Hz); single-threaded callback execution as with ros::spin()")
