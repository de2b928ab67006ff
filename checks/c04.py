"""C04: asking changes neither the arguments handed over nor the definitions of the project."""
import check
import histcheck as h


ONLY = ("arguments", "definitions changed by a question")


def body(c):
    c.assumptions += ["arguments and definitions are compared by their JSON text before and after"]
    h.model(c, 4 if c.quick else 5)
    n = 240 if c.quick else 700
    h.run(c, h.histories(c, n, 16, ["set", "field"], h.ALL, seed=11), "all questions", ONLY + ("answer",))
    # every request once, of every user, then all again with the same objects
    h.run(c, h.every_request(c), "every request", ONLY + ("answer",))


check.main("C04", body)
